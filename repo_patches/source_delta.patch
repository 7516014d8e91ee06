From 5b720230d1bd06b63cdfbd04d3db09db0e17500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 001/115] fix: keep DEL characters outside of comments and
 strings

The lexer had no rule for 0x7f, so the character and the rest of the input were dropped.
---
 src/parser/TextLexer.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index 604d049..a4f52c4 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -217,6 +217,7 @@ CONTROL_CHAR :
     (
         '\000'..'\010' |
         '\013'..'\014' |
-        '\016'..'\037'
+        '\016'..'\037' |
+        '\177'
     )
 ;
-- 
2.43.0


From 762bbf531877ea332a2e1864f9f8a589d14c57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 002/115] fix: resume the stream when another expression
 statement starts

---
 src/parser/srcMLParser.g | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index f89e6dc..def19f9 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -7155,6 +7155,9 @@ expression_statement_process[] { ENTRY_DEBUG } :
     {
         bool inenumclass = (inLanguage(LANGUAGE_JAVA_FAMILY) && inTransparentMode(MODE_ENUM) && inMode(MODE_CLASS));
 
+        // any previously paused statement is not the one being started
+        resumeStream();
+
         // statement with an embedded expression
         startNewMode(MODE_STATEMENT | MODE_EXPRESSION | MODE_EXPECT);
 
-- 
2.43.0


From 032ad174ed8eaed625ec585891175198b62bc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 003/115] fix: do not pause at an unrelated token in a Java
 enum class body

---
 src/parser/srcMLParser.g | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index def19f9..010dcf9 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -7168,12 +7168,18 @@ expression_statement_process[] { ENTRY_DEBUG } :
 ;
 
 // an expression statement
-expression_statement[CALL_TYPE type = NOCALL, int call_count = 1] { ENTRY_DEBUG } :
+expression_statement[CALL_TYPE type = NOCALL, int call_count = 1] {
+
+        // expressions in a Java enum class body are not wrapped in a statement element, so there is nothing to pause
+        bool inenumclass = (inLanguage(LANGUAGE_JAVA_FAMILY) && inTransparentMode(MODE_ENUM) && inMode(MODE_CLASS));
+
+        ENTRY_DEBUG } :
 
         expression_statement_process
 
-        { 
-            pauseStream();
+        {
+            if (!inenumclass)
+                pauseStream();
         }
 
         expression[type, call_count]
-- 
2.43.0


From cee0e69c1c4564c8fef07c71998d6b2ac67e516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 004/115] fix: stop the infinite loop in the index of C# and
 Objective-C when no token can be consumed

---
 src/parser/srcMLParser.g | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 010dcf9..ebe71ad 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -4584,6 +4584,9 @@ set_int[int& name, int value, bool condition = true] { if (condition) name = val
 /* sets the bool to a value */
 set_bool[bool& variable, bool value = true] { variable = value; } :;
 
+/* sets the token to a value */
+set_token[antlr::RefToken& variable, antlr::RefToken value] { variable = value; } :;
+
 trace[const char*s ] { std::cerr << s << std::endl; } :;
 
 
@@ -5003,11 +5006,14 @@ variable_identifier_array_grammar_sub[bool& iscomplex] { CompleteElement element
 ;
 
 // contents of array index
-variable_identifier_array_grammar_sub_contents{ bool found_expr = false; bool is_expr = false; ENTRY_DEBUG } :
+variable_identifier_array_grammar_sub_contents{ bool found_expr = false; bool is_expr = false; antlr::RefToken last = nullptr; ENTRY_DEBUG } :
         { !inLanguage(LANGUAGE_CSHARP) && !inLanguage(LANGUAGE_OBJECTIVE_C) }? complete_expression |
 
         { inLanguage(LANGUAGE_CSHARP) || inLanguage(LANGUAGE_OBJECTIVE_C) }?
-            (options { greedy = true; } : { LA(1) != RBRACKET }?
+            // to prevent an infinite loop, stop if no progress was made, e.g., a[struct in C#
+            (options { greedy = true; } : { LA(1) != RBRACKET && LT(1).get() != last.get() }?
+                set_token[last, LT(1)]
+
                 ({ /* stop warning */ LA(1) == COMMA }? { if (!found_expr) { empty_element(SEXPRESSION, true); }
 
 
-- 
2.43.0


From bb79cf3b6883952c12cf0ccd27893b5a5924baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 005/115] fix: continue reading source after a multibyte
 character split between reads

A character split at the end of a read was treated as the end of the input.
---
 src/parser/UTF8CharBuffer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index c45cf68..3c229f4 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -390,8 +390,10 @@ ssize_t UTF8CharBuffer::readChars() {
         size_t outbytesleft = cooked.size();
 
         // convert from raw characters to cooked, encoded in UTF-8 characters
+        // an incomplete multibyte sequence at the end of the raw characters (EINVAL) is not an error,
+        // as the rest of the sequence may be in the next read
         size_t binsize = iconv(ic, &linbuf, &inbytesleft, &loutbuf, &outbytesleft);
-        if (binsize == (size_t) -1) {
+        if (binsize == (size_t) -1 && errno != EINVAL) {
             fprintf(stderr, "%s\n", strerror(errno));
             return 0;
         }
@@ -404,6 +406,12 @@ ssize_t UTF8CharBuffer::readChars() {
         // so just move all of them to the start of the buffer
         if (inbytesleft)
             std::move(linbuf, linbuf + inbytesleft, raw.begin());
+
+        // no complete characters yet, but it is not EOF
+        if (cooked.empty() && sio.read_callback) {
+            insize = 0;
+            return readChars();
+        }
     }
 
     return trivial ? raw.size() : cooked.size();
-- 
2.43.0


From ebf4390087ef5fd61d13d42e1cc7b172583511c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 006/115] fix: detect the BOM when the first read of source is
 short

---
 src/parser/UTF8CharBuffer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 3c229f4..48a1884 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -289,6 +289,17 @@ ssize_t UTF8CharBuffer::readChars() {
 
         // new size is the number of bytes read in, plus any incomplete multibyte sequences from previous
         raw.resize(insize + inbytesleft);
+
+        // first read may be short, but need enough to detect any BOM
+        while (firstRead && raw.size() < 4) {
+
+            const size_t size = raw.size();
+            raw.resize(SRCBUFSIZE);
+            const ssize_t more = sio.read_callback(sio.context, raw.data() + size, raw.size() - size);
+            raw.resize(size + (more > 0 ? more : 0));
+            if (more <= 0)
+                break;
+        }
     }
 
     // hash only the read data, not the inbytesleft (from previous call)
-- 
2.43.0


From 541a185970da7e2d3533005abff3d3697e279a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 007/115] fix: remove the UTF-8 BOM from the raw source

Skipping it in the converted characters split a character when the source
encoding is not UTF-8, and read past the end when there was only a BOM.
---
 src/parser/UTF8CharBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 48a1884..e6e6061 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -327,7 +327,8 @@ ssize_t UTF8CharBuffer::readChars() {
         if ((data.i & 0x00FFFFFF) == 0x00BFBBEF) {
 
             // a trivial conversion, so BOM (Byte Order Mark) for UTF-8 has to be manually skipped
-            pos += 3;
+            // removed from the raw characters, since the cooked characters may be in a different encoding
+            raw.erase(raw.begin(), raw.begin() + 3);
 
             // no encoding specified (by user) then UTF-8, otherwise check if it is compatible with UTF-8
             if (encoding.empty()) {
-- 
2.43.0


From c8e69b1e44b157a58b54245656823cd39c3d7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 008/115] fix: allow a null close callback when parsing source

---
 src/parser/UTF8CharBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index e6e6061..4376a69 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -503,7 +503,7 @@ const std::string& UTF8CharBuffer::getEncoding() const {
  * place in buffer if requested.
  */
 UTF8CharBuffer::~UTF8CharBuffer() {
-    if(sio.context) {
+    if(sio.context && sio.close_callback) {
         sio.close_callback(sio.context);
     }
 
-- 
2.43.0


From cb4acabc887f9b701bbe86bdec40083a3d31b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 009/115] fix: determine the source encoding for all inputs,
 not just memory

The encoding of a unit parsed from a file was empty, so the encoding
was not stored and the unit was not unparsed in the source encoding.
---
 src/parser/UTF8CharBuffer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 4376a69..d340964 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -156,6 +156,9 @@ UTF8CharBuffer::UTF8CharBuffer(const char* ifilename, const char* encoding, bool
         delete static_cast<Context<int>*>(context);
         return close(fd);
     };
+
+    // first read determines the encoding
+    insize = readChars();
 }
 
 /**
@@ -212,6 +215,9 @@ UTF8CharBuffer::UTF8CharBuffer(FILE* file, const char* encoding, bool hashneeded
             return (size_t) result;
     };
     sio.close_callback = [](void*) -> int { return 0; };
+
+    // first read determines the encoding
+    insize = readChars();
 }
 
 /**
@@ -237,6 +243,9 @@ UTF8CharBuffer::UTF8CharBuffer(int fd, const char* encoding, bool hashneeded, bo
         delete static_cast<Context<int>*>(context);
         return 0;
     };
+
+    // first read determines the encoding
+    insize = readChars();
 }
 
 /**
@@ -258,6 +267,9 @@ UTF8CharBuffer::UTF8CharBuffer(void* context, srcml_read_callback read_callback,
     sio.context = context;
     sio.read_callback = read_callback;
     sio.close_callback = close_callback;
+
+    // first read determines the encoding
+    insize = readChars();
 }
 
 /**
-- 
2.43.0


From af073629b64ecf2132ca90107e1bae85e16d5b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 010/115] fix: close the source file after parsing by filename

---
 src/libsrcml/srcml_unit.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index d4b764d..5c0b1da 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -564,10 +564,14 @@ int srcml_unit_parse_filename(struct srcml_unit* unit, const char* src_filename)
         return SRCML_STATUS_IO_ERROR;
     }
 
-    return srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
+    int status = srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
 
         return new UTF8CharBuffer(src_fd, encoding, output_hash, hash);
     });
+
+    CLOSE(src_fd);
+
+    return status;
 }
 
 /**
-- 
2.43.0


From 992bda3ce1c36ebaa9e46c6ce1627e64e91e9cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 011/115] fix: stop the infinite loop when no progress is made
 with a paused stream

The output of a statement is paused until it is known if it is complete. While
paused, nothing consumed a token that no rule could start with.
---
 src/parser/StreamMLParser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index d569eab..08d89ea 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -671,8 +671,13 @@ private:
         if (tb.empty())
             consume();
 
-        while (paused)
+        // to prevent infinite loops, consume is called if no progress is made
+        while (paused) {
+            const auto size = tb.size();
             fillTokenBuffer();
+            if (paused && tb.size() == size)
+                consume();
+        }
 
         // to calculate end position, need to buffer until end token in reached
         // to prevent infinite loops, consume is called if no progress is made on the
-- 
2.43.0


From ff7ca169ad8a610bf2df7ee2665810b08ea70fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 012/115] fix: give the full size of source extracted to memory
 in encodings with NUL bytes

---
 src/libsrcml/srcml_unit.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 5c0b1da..59314d9 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -784,10 +784,12 @@ int srcml_unit_unparse_memory(struct srcml_unit* unit, char** src_buffer, size_t
     if (status != SRCML_STATUS_OK)
         return status;
 
+    // record the size before the buffer is detached, as the source may contain NUL bytes, e.g., UTF-16
+    *src_size = (size_t) buffer->use;
+
     (*src_buffer) = (char *) xmlBufferDetach(buffer);
     if (!(*src_buffer))
         return SRCML_STATUS_ERROR;
-    *src_size = strlen(*src_buffer);
 
     xmlBufferFree(buffer);
 
-- 
2.43.0


From 0a6f164d1431f625f9a8234e7cb6cb2940bb6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 013/115] fix: write the same bytes to a FILE, descriptor, or
 callback as to memory for other XML encodings

---
 src/libsrcml/srcml_archive.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 1e01848..18fe28d 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -968,7 +968,7 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
 
     archive->type = SRCML_ARCHIVE_WRITE;
 
-    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, 0);
 
     return SRCML_STATUS_OK;
 }
@@ -990,7 +990,7 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
 
     archive->type = SRCML_ARCHIVE_WRITE;
 
-    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, 0);
 
     return SRCML_STATUS_OK;
 }
@@ -1015,7 +1015,7 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
 
     archive->type = SRCML_ARCHIVE_WRITE;
 
-    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, 0);
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From 9218c69240463438af065e8d162e5bebcc43f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 014/115] fix: collect long multibyte text while reading srcML
 from a file

---
 src/libsrcml/sax2_srcsax_handler.cpp | 36 +++++++++++++++++++---------
 src/libsrcml/sax2_srcsax_handler.hpp |  3 +++
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index e2ca856..b6e8003 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -649,6 +649,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
         }
     }
     state->base = ctxt->input->cur;
+    state->starttagopen = state->base[0] == '>';
 
     SRCSAX_DEBUG_END(localname);
 }
@@ -782,28 +783,41 @@ void characters_unit(void* ctx, const xmlChar* ch, int len) {
 
     update_ctx(ctx);
 
+    // with multibyte characters libxml2 passes a copy of the text, and may have already
+    // discarded the start of the original text (and the end of the previous start tag) from the input
+    bool discarded = state->base < ctxt->input->base;
+
     // end previous start element
-    if (state->base[0] == '>') {
+    if (discarded ? state->starttagopen : state->base[0] == '>') {
         state->unitsrcml.append(1, '>');
         state->base += 1;
     }
+    state->starttagopen = false;
 
     // libxml2 handles things in the background differently for whitespace and escaped characters
-    // using a different buffer. For POS (Plain Old Strings), it uses the original buffer
-    if (state->base == ctxt->input->cur) {
-
-        // plain old strings
-        state->unitsrcml.append((const char*) ch, len);
-
-        // libxml2 passes ctxt->input->cur as ch, so then must increment to len
-        state->base = ctxt->input->cur + len;
+    // using a different buffer. For POS (Plain Old Strings), it uses the original buffer, and the
+    // text, or the end of it, may not be consumed yet
+    auto consumed = ctxt->input->cur - state->base;
+    auto unconsumed = consumed < len ? len - consumed : 0;
+    if (discarded) {
+
+        // the original is gone, so use the text, where only '>' may need to be escaped
+        for (int i = 0; i < len; ++i) {
+            if (ch[i] == '>')
+                state->unitsrcml.append("&gt;");
+            else
+                state->unitsrcml.append(1, (char) ch[i]);
+        }
 
     } else {
 
         // whitespace and escaped characters
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
-        state->base = ctxt->input->cur;
+        state->unitsrcml.append((const char*) state->base, consumed);
+
+        // plain old strings
+        state->unitsrcml.append((const char*) ch + (len - unconsumed), unconsumed);
     }
+    state->base = ctxt->input->cur + unconsumed;
 
     SRCML_DEBUG("UNIT", state->unitsrcml.c_str(), state->unitsrcml.size());
 
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index c515197..2d31607 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -78,6 +78,9 @@ struct sax2_srcsax_handler {
 
     const xmlChar* prevbase = nullptr;
 
+    /** the '>' of the last start tag is not yet part of the unit */
+    bool starttagopen = false;
+
     bool collect_src = false;
     bool collect_unit_body = true;
 
-- 
2.43.0


From 0f617086f581db9cff3ab7fb3ee8bb586fafb1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 015/115] fix: read ampersands in attribute values

---
 src/libsrcml/srcml_reader_handler.hpp |  6 +++---
 src/libsrcml/unit_utilities.cpp       | 14 +++++++++++++-
 src/libsrcml/unit_utilities.hpp       |  3 +++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 721c8b1..ae53bf0 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -257,7 +257,7 @@ public :
         // collect attributes
         for (int pos = 0; pos < num_attributes; ++pos) {
             std::string attribute = (const char*) attributes[pos * 5];
-            std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
+            std::string value = attribute_value(attributes[pos * 5 + 3], attributes[pos * 5 + 4]);
 
             // Note: these are ignore instead of placing in attributes.
             if (attribute == "timestamp")
@@ -516,9 +516,9 @@ public :
             for (int pos = 0; pos < num_attributes; ++pos) {
 
                 if (strcmp((const char*) attributes[ATTR_LOCALNAME(pos)], "token") == 0)
-                    token.append((const char*) attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)] - attributes[ATTR_VALUE_START(pos)]);
+                    token = attribute_value(attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)]);
                 else if (strcmp((const char*) attributes[ATTR_LOCALNAME(pos)], "type") == 0)
-                    type.append((const char*) attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)] - attributes[ATTR_VALUE_START(pos)]);
+                    type = attribute_value(attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)]);
             }
 
             if (token != "" && type != "") {
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index a3ca02e..7b5d181 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -24,6 +24,18 @@
 #include <libxml/parserInternals.h>
 #include <stack>
 
+// Attribute value from the SAX2 range, where libxml2 leaves an ampersand as a character reference
+std::string attribute_value(const xmlChar* begin, const xmlChar* end) {
+
+    std::string value((const char*) begin, end - begin);
+
+    const std::string AMPERSAND = "&#38;";
+    for (auto pos = value.find(AMPERSAND); pos != std::string::npos; pos = value.find(AMPERSAND, pos + 1))
+        value.replace(pos, AMPERSAND.size(), "&");
+
+    return value;
+}
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes) {
 
@@ -31,7 +43,7 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
     for (int pos = 0; pos < num_attributes; ++pos) {
 
         std::string attribute = (const char*) attributes[pos * 5];
-        std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
+        std::string value = attribute_value(attributes[pos * 5 + 3], attributes[pos * 5 + 4]);
 
         if (attribute == "timestamp")
             srcml_unit_set_timestamp(unit, value.c_str());
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 31a6b6b..810ab67 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -27,6 +27,9 @@
 #include <srcml.h>
 #include <libxml/parser.h>
 
+// Attribute value from the SAX2 range, where libxml2 leaves an ampersand as a character reference
+std::string attribute_value(const xmlChar* begin, const xmlChar* end);
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
 
-- 
2.43.0


From abfa4f002d006f781a6a72b57ff3d664fe179a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 016/115] fix: read comments, CDATA, and processing
 instructions in units

---
 src/libsrcml/sax2_srcsax_handler.cpp  | 49 +++++++++++++++++++--------
 src/libsrcml/srcml_reader_handler.hpp |  2 --
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index b6e8003..0dcc35b 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -103,6 +103,22 @@ static void update_ctx(void* ctx) {
     state->prevbase = ctxt->input->base;
 }
 
+// collect the markup just parsed, e.g., CDATA, including the end of a previous start tag
+// if libxml2 has already discarded part of the original markup from the input, uses the equivalent markup
+static void collect_markup(xmlParserCtxtPtr ctxt, sax2_srcsax_handler* state, const std::string& markup) {
+
+    if (state->base < ctxt->input->base) {
+        if (state->starttagopen)
+            state->unitsrcml.append(1, '>');
+        state->unitsrcml.append(markup);
+    } else {
+        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+    }
+    state->starttagopen = false;
+
+    state->base = ctxt->input->cur;
+}
+
 // unit and root delayed-start processing
 static int reparse_root(void* ctx) {
 
@@ -399,8 +415,6 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
         // restart unit count due to call of start_unit() in start_root() when we assumed a solo unit
         state->unit_count = 0;
 
-        state->loc = 0;
-
         // unit starts for real, discarding previous start_unit() in start_root()
         start_unit(ctx, localname, prefix, URI, nb_namespaces, namespaces, nb_attributes, 0, attributes);
 
@@ -488,6 +502,9 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
     // update position
     state->base = ctxt->input->cur + 1;
+    state->starttagopen = false;
+
+    state->loc = 0;
 
     // upper-level start unit handling
     // note: In order to nop this, it is set to 0 sometimes, so have to check
@@ -547,8 +564,12 @@ void end_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, const
 
     ctxt->sax->startElementNs = &start_unit;
 
-    if (true || state->collect_unit_body)
+    if (true || state->collect_unit_body) {
         ctxt->sax->ignorableWhitespace = ctxt->sax->characters = &characters_root;
+        ctxt->sax->comment = &comment;
+        ctxt->sax->cdataBlock = &cdata_block;
+        ctxt->sax->processingInstruction = &processing_instruction;
+    }
 
     SRCSAX_DEBUG_END(localname);
 }
@@ -694,6 +715,7 @@ void end_element(void* ctx, const xmlChar* localname, const xmlChar* prefix, con
     }
 
     state->base = ctxt->input->cur;
+    state->starttagopen = false;
 
     SRCSAX_DEBUG_END(localname);
 
@@ -849,10 +871,8 @@ void comment(void* ctx, const xmlChar* value) {
 
     if (state->collect_unit_body) {
 
-        // take the value but note it could be part of inter-unit
-        state->unitsrcml.append("<!--");
-        state->unitsrcml.append((const char*) value);
-        state->unitsrcml.append("-->");
+        // note it could be part of inter-unit
+        collect_markup(ctxt, state, std::string("<!--") + (const char*) value + "-->");
     }
 
     state->base = ctxt->input->cur;
@@ -885,15 +905,16 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
     // append CDATA
     if (state->collect_unit_body) {
 
-        // xml can get raw
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+        collect_markup(ctxt, state, "<![CDATA[" + std::string((const char*) value, len) + "]]>");
 
         // CDATA is character data
         state->unitsrc.append((const char*) value, len);
 
-        state->base = ctxt->input->cur;
+        state->loc += (int) std::count((const char*) value, (const char*) value + len, '\n');
     }
 
+    state->base = ctxt->input->cur;
+
     SRCSAX_DEBUG_END("");
 }
 
@@ -906,7 +927,7 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
  * Called when a processing instruction has been parsed.
  * Immediately calls supplied handlers function.
  */
-void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlChar* /* data */) {
+void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* data) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -921,10 +942,10 @@ void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlCha
 
     if (state->collect_unit_body) {
 
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
-
-        state->base = ctxt->input->cur;
+        collect_markup(ctxt, state, std::string("<?") + (const char*) target + (data ? std::string(" ") + (const char*) data : "") + "?>");
     }
 
+    state->base = ctxt->input->cur;
+
     SRCSAX_DEBUG_END("");
 }
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index ae53bf0..5198f30 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -385,8 +385,6 @@ public :
             cond.wait(lock);
         }
 
-        state->loc = 0;
-
         state->collect_unit_body = collect_unit_body;
 
         if (terminate)
-- 
2.43.0


From 4f287cbaf5b7281f560947f2f3e693fd51edd24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 017/115] fix: use the position option and prefix of the
 current unit

---
 src/parser/srcMLOutput.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index bb97f32..b92f2f8 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -501,9 +501,10 @@ void srcMLOutput::addPosition(const antlr::RefToken& token) {
     if (stoken->endline < stoken->getLine() || (stoken->endline == stoken->getLine() && stoken->endcolumn < stoken->getColumn()))
             return;
 
-    thread_local const std::string& prefix = namespaces[POS].prefix;
-    thread_local const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
-    thread_local const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
+    // prefix may differ between units
+    const std::string& prefix = namespaces[POS].prefix;
+    const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
+    const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
 
     // highly optimized as this is output for every start tag
 
@@ -535,7 +536,7 @@ void srcMLOutput::processToken(const antlr::RefToken& token, const char* name, c
     if (name[0] == 0)
         return;
 
-    thread_local bool isposition = isoption(options, SRCML_OPTION_POSITION);
+    const bool isposition = isoption(options, SRCML_OPTION_POSITION);
 
     if (isstart(token) || isempty(token)) {
 
-- 
2.43.0


From 5a2a1c4071be1963f953ad45d3ec7a9576262f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 018/115] fix: keep the tabs attribute value while it is
 written

---
 src/parser/srcMLOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index b92f2f8..1411a0c 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -328,6 +328,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
     }
 
     // setup for tabs if used
+    const std::string tabs = std::to_string(tabsize);
     std::string tabattribute;
     if (isoption(options, SRCML_OPTION_POSITION)) {
         tabattribute = namespaces[POS].getPrefix();
@@ -369,7 +370,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         { UNIT_ATTRIBUTE_VERSION, version },
 
         // position tab setting
-        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? std::to_string(tabsize).c_str() : 0 },
+        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? tabs.c_str() : 0 },
 
         // timestamp attribute
         { UNIT_ATTRIBUTE_TIMESTAMP, timestamp },
-- 
2.43.0


From df104ee2028e4f056be76ef20991df47ba6f2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 019/115] fix: report source that cannot be read or converted
 instead of dropping the rest

---
 src/libsrcml/srcml_translator.cpp |  8 +++++++-
 src/libsrcml/srcml_translator.hpp |  2 +-
 src/libsrcml/srcml_unit.cpp       |  9 +++++++--
 src/parser/UTF8CharBuffer.cpp     | 13 ++++++++++++-
 src/parser/UTF8CharBuffer.hpp     |  6 ++++++
 5 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 2977be6..fbb778e 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -110,8 +110,10 @@ void srcml_translator::close() {
  * translate
  *
  * Translate a single unit and output.  No xml declaration is added.
+ *
+ * @returns if all of the input was translated.
  */
-void srcml_translator::translate(UTF8CharBuffer* parser_input) {
+bool srcml_translator::translate(UTF8CharBuffer* parser_input) {
 
     first = false;
 
@@ -148,6 +150,8 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
         // parse and form srcML output with unit attributes
         out.consume(getLanguageString(), revision, url, filename, version, timestamp, hash, encoding);
 
+        return !parser_input->failed();
+
     } catch (const std::exception& e) {
         fprintf(stderr, "SRCML Exception: %s\n", e.what());
     }
@@ -157,6 +161,8 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
     catch (...) {
         fprintf(stderr, "srcML translator error\n");
     }
+
+    return false;
 }
 
 void srcml_translator::prepareOutput() {
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index df01d55..25e3b2f 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -76,7 +76,7 @@ public:
 
     void close();
 
-    void translate(UTF8CharBuffer* parser_input);
+    bool translate(UTF8CharBuffer* parser_input);
 
     bool add_unit(const srcml_unit* unit);
     bool add_start_unit(const srcml_unit* unit);
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 59314d9..3ff1e7d 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -533,14 +533,19 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         return status;
 
     // parse the input
-    unit->unit_translator->translate(input);
+    bool translated = unit->unit_translator->translate(input);
 
     // namespaces were updated during translation, may now include
     // namespaces that were optional
     unit->namespaces = unit->unit_translator->out.getNamespaces();
 
     // create the unit end tag
-    return srcml_write_end_unit(unit);
+    status = srcml_write_end_unit(unit);
+    if (status != SRCML_STATUS_OK)
+        return status;
+
+    // source that could not be read or converted is missing from the unit
+    return translated ? SRCML_STATUS_OK : SRCML_STATUS_IO_ERROR;
 }
 
 /**
diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index d340964..b84f0c3 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -291,11 +291,14 @@ ssize_t UTF8CharBuffer::readChars() {
         ssize_t insize = sio.read_callback ? (int) sio.read_callback(sio.context, raw.data() + inbytesleft, raw.size() - inbytesleft) : 0;
         if (insize == -1) {
             fprintf(stderr, "Error reading: %s", strerror(errno));
+            readFailed = true;
             return 0;
         }
 
-        // EOF
+        // EOF, but not in the middle of a multibyte sequence
         if (insize == 0) {
+            if (inbytesleft)
+                readFailed = true;
             return 0;
         }
 
@@ -309,6 +312,8 @@ ssize_t UTF8CharBuffer::readChars() {
             raw.resize(SRCBUFSIZE);
             const ssize_t more = sio.read_callback(sio.context, raw.data() + size, raw.size() - size);
             raw.resize(size + (more > 0 ? more : 0));
+            if (more == -1)
+                readFailed = true;
             if (more <= 0)
                 break;
         }
@@ -385,6 +390,7 @@ ssize_t UTF8CharBuffer::readChars() {
         if (ic == (iconv_t) -1) {
             if (errno == EINVAL) {
                 fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n\n", encoding.c_str());
+                readFailed = true;
                 return 0;
             }
         }
@@ -419,6 +425,7 @@ ssize_t UTF8CharBuffer::readChars() {
         size_t binsize = iconv(ic, &linbuf, &inbytesleft, &loutbuf, &outbytesleft);
         if (binsize == (size_t) -1 && errno != EINVAL) {
             fprintf(stderr, "%s\n", strerror(errno));
+            readFailed = true;
             return 0;
         }
 
@@ -462,6 +469,10 @@ int UTF8CharBuffer::getChar() {
     // may need more characters
     if (insize == 0 || pos >= insize) {
 
+        // nothing more after a failure
+        if (readFailed)
+            return -1;
+
         insize = readChars();
         if (insize == 0) {
             // EOF
diff --git a/src/parser/UTF8CharBuffer.hpp b/src/parser/UTF8CharBuffer.hpp
index 665efa4..aed8ea9 100644
--- a/src/parser/UTF8CharBuffer.hpp
+++ b/src/parser/UTF8CharBuffer.hpp
@@ -122,6 +122,9 @@ public:
     // Get the used encoding
     const std::string& getEncoding() const;
 
+    // Not all of the input could be read and converted
+    bool failed() const { return readFailed; }
+
     int getLOC() { if (lastchar == '\n') return loc; else return loc + 1; }
 
     ~UTF8CharBuffer();
@@ -184,5 +187,8 @@ private:
 
     /** first time reading data */
     bool firstRead = true;
+
+    /** input could not be read or converted */
+    bool readFailed = false;
 };
 #endif
-- 
2.43.0


From 2eb302d241abdebc5965231123eb2f7cc0debeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:56 +0000
Subject: [PATCH 020/115] fix: detect the UTF-32LE byte-order mark

---
 src/parser/UTF8CharBuffer.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index b84f0c3..c714f38 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -355,23 +355,12 @@ ssize_t UTF8CharBuffer::readChars() {
             }
         }
 
-        // auto-detect UTF-16 based on BOM
-        // both UTF-16LE and UTF-16BE are determined automatically from BOM
-        // and processed as UTF-16
-        if ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF) {
-
-            // no encoding specified (by user) then UTF-16, otherwise check if it is compatible with UTF-16
-            if (encoding.empty()) {
-                encoding = "UTF-16";
-            } else if (encoding != "UTF-16" && !compatibleEncodings(encoding.c_str(), "UTF-16")) {
-                fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a UTF-16 BOM\n", encoding.c_str());
-            }
-        }
-
         // auto-detect UTF-32 based on BOM
         // both UTF-32LE and UTF-32BE are determined automatically from BOM
         // and processed as UTF-32
-        if (data.i == 0xFFFE0000 || data.i == 0xFEFF0000) {
+        // note: the BOM of UTF-16LE is the start of the BOM of UTF-32LE
+        bool utf32 = data.i == 0xFFFE0000 || (data.i == 0x0000FEFF && raw.size() >= 4);
+        if (utf32) {
 
             // no encoding specified (by user) then UTF-32, otherwise check if it is compatible with UTF-32
             if (encoding.empty()) {
@@ -381,6 +370,19 @@ ssize_t UTF8CharBuffer::readChars() {
             }
         }
 
+        // auto-detect UTF-16 based on BOM
+        // both UTF-16LE and UTF-16BE are determined automatically from BOM
+        // and processed as UTF-16
+        if (!utf32 && ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF)) {
+
+            // no encoding specified (by user) then UTF-16, otherwise check if it is compatible with UTF-16
+            if (encoding.empty()) {
+                encoding = "UTF-16";
+            } else if (encoding != "UTF-16" && !compatibleEncodings(encoding.c_str(), "UTF-16")) {
+                fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a UTF-16 BOM\n", encoding.c_str());
+            }
+        }
+
         // if no encoding found or specified, assume ISO-8859-1
         if (encoding.empty())
             encoding = "ISO-8859-1";
-- 
2.43.0


From 79d1988dcc7ee0076bd6c26113aa417f4d483677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 021/115] fix: parse source into a unit again without results
 of the previous source

---
 src/libsrcml/srcml_types.hpp |  4 ++++
 src/libsrcml/srcml_unit.cpp  | 23 ++++++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index 2b4ecd9..4cf3c08 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -201,6 +201,10 @@ struct srcml_unit {
     /** the type of eol to output with source code */
     size_t eol = SOURCE_OUTPUT_EOL_AUTO;
 
+    /** the encoding and hash are from parsed source, not set */
+    bool encoding_from_source = false;
+    bool hash_from_source = false;
+
     /** language decided for the unit */
     int derived_language = SRCML_LANGUAGE_NONE;
 
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 3ff1e7d..0fe898f 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -51,6 +51,7 @@ int srcml_unit_set_src_encoding(struct srcml_unit* unit, const char* encoding) {
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     unit->encoding = encoding ? std::string(encoding) : decltype(unit->encoding)();
+    unit->encoding_from_source = false;
 
     return SRCML_STATUS_OK;
 }
@@ -151,6 +152,7 @@ int srcml_unit_set_hash(struct srcml_unit* unit, const char* hash) {
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     unit->hash = hash ? std::string(hash) : decltype(unit->hash)();
+    unit->hash_from_source = false;
 
     return SRCML_STATUS_OK;
 }
@@ -499,6 +501,10 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
 
     unit->derived_language = lang;
 
+    // the encoding found in previously parsed source is not for this source
+    if (unit->encoding_from_source)
+        unit->encoding = boost::none;
+
     const char* src_encoding = optional_to_c_str(unit->encoding, optional_to_c_str(unit->archive->src_encoding));
 
     // verify encoding here instead of later, when more difficult to handle errors
@@ -513,6 +519,11 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         iconv_close(ic);
     }
 
+    // start over with results from any previously parsed source
+    if (unit->hash_from_source)
+        unit->hash = boost::none;
+    unit->namespaces = boost::none;
+
     bool output_hash = !unit->hash && unit->archive->options & SRCML_OPTION_HASH;
 
     UTF8CharBuffer* input = 0;
@@ -522,7 +533,9 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
 
     } catch(...) { return SRCML_STATUS_IO_ERROR; }
 
+    unit->encoding_from_source = unit->encoding_from_source || !unit->encoding;
     unit->encoding = input->getEncoding();
+    unit->hash_from_source = output_hash;
 
     // unit url is just that of the archive
     unit->url = unit->archive->url;
@@ -1017,10 +1030,12 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     free(start_tag);
     free(srcml);
 
+    // nothing is left of any previous contents
+    unit->srcml_fragment = boost::none;
+    unit->srcml_raw = boost::none;
+
     // record the loc
-    if (!unit->src) {
-        unit->src = extract_src(unit->srcml);
-    }
+    unit->src = extract_src(unit->srcml);
 
     unit->loc = (int) std::count(unit->src->begin(), unit->src->end(), '\n');
     if (!unit->src->empty() && unit->src->back() != '\n')
@@ -1207,6 +1222,8 @@ struct srcml_unit* srcml_unit_clone(const struct srcml_unit* unit) {
     new_unit->language = unit->language;
     new_unit->revision = unit->revision;
     new_unit->encoding = unit->encoding;
+    new_unit->encoding_from_source = unit->encoding_from_source;
+    new_unit->hash_from_source = unit->hash_from_source;
     new_unit->attributes = unit->attributes;
     new_unit->eol = unit->eol;
     new_unit->derived_language = unit->derived_language;
-- 
2.43.0


From ae4a135c93ee69220976522cb9e8c844afea3d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 022/115] fix: use the tab stop in comments and strings

---
 src/libsrcml/srcml_translator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index fbb778e..140d977 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -135,6 +135,7 @@ bool srcml_translator::translate(UTF8CharBuffer* parser_input) {
         // pure block comment lexer
         CommentTextLexer textlexer(lexer.getInputState());
         textlexer.setSelector(&selector);
+        textlexer.setTabsize((int)tabsize);
 
         // switching between lexers
         selector.addInputStream(&lexer, "main");
-- 
2.43.0


From 8d052998e81434a5e1651e94f625726448a5d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 023/115] fix: record end positions without guesses and
 directives, and the same markup with positions

---
 src/parser/StreamMLParser.hpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 08d89ea..0877854 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -320,13 +320,23 @@ private:
         // rest of consume process
         srcMLParser::consume();
 
-        // record for end position of start elements
-        lastline = LT(1)->getLine();
-        lastcolumn = LT(1)->getColumn() - 1;
+        // nothing is output during guessing stage, so not the end of any element
+        const bool guessing = srcMLParser::inputState->guessing != 0;
+        const int endline = guessing ? lastline : LT(1)->getLine();
+        const int endcolumn = guessing ? lastcolumn : LT(1)->getColumn() - 1;
 
         // consume any skipped tokens
         while (consumeSkippedToken())
             ;
+
+        // end unterminated comment before the end of any other elements
+        if (srcMLParser::LA(1) == antlr::Token::EOF_TYPE)
+            completeSkip();
+
+        // record for end position of start elements
+        // after the skipped tokens, as these may include an entire preprocessor directive
+        lastline = endline;
+        lastcolumn = endcolumn;
     }
 
     /**
@@ -680,17 +690,14 @@ private:
         }
 
         // to calculate end position, need to buffer until end token in reached
-        // to prevent infinite loops, consume is called if no progress is made on the
-        // current token, e.g., double max const();
+        // to prevent infinite loops, consume is called if there are no new tokens,
+        // as above, so that the markup is the same without positions
         if (isoption(options, SRCML_OPTION_POSITION)) {
-            auto curline = LT(1)->getLine();
-            auto curcolumn = LT(1)->getColumn();
             while (ends.size() > 1) {
+                const auto size = tb.size();
                 fillTokenBuffer();
-                if (LT(1)->getLine() == curline && LT(1)->getColumn() == curcolumn)
+                if (tb.size() == size)
                     consume();
-                curline = LT(1)->getLine();
-                curcolumn = LT(1)->getColumn();
             }
         }
 
-- 
2.43.0


From cbf2e0ad8e77953d491c1fac24d10913d9d878d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 024/115] fix: compare element names with those of their own
 document

---
 src/libsrcml/sax2_srcsax_handler.cpp | 20 +++++++-------------
 src/libsrcml/sax2_srcsax_handler.hpp |  6 ++++++
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 0dcc35b..8f2be71 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -48,12 +48,6 @@
     #define SRCSAX_DEBUG_END_CHARS(ch,len)
 #endif
 
-// libxml2 places elements into a dictionary
-// once initialized, can compare pointers instead of strings
-static const xmlChar* UNIT_ENTRY = nullptr;
-static const xmlChar* MACRO_LIST_ENTRY = nullptr;
-static const xmlChar* ESCAPE_ENTRY = nullptr;
-
 /**
  * factory
  *
@@ -207,9 +201,9 @@ void start_document(void* ctx) {
     SRCSAX_DEBUG_START("");
 
     // save for dictionary lookup of common elements
-    UNIT_ENTRY       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
-    MACRO_LIST_ENTRY = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
-    ESCAPE_ENTRY     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
+    state->unit_entry       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
+    state->macro_list_entry = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
+    state->escape_entry     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
 
     // save the encoding from the input
     state->context->encoding = "UTF-8";
@@ -389,7 +383,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
 
     // if macros are found, then must return, process first
     // but stay in first_start_element, since this can be between root unit and nested unit
-    if (localname == MACRO_LIST_ENTRY) {
+    if (localname == state->macro_list_entry) {
 
         state->context->handler->meta_tag(state->context, (const char*) localname, (const char*) prefix, (const char*) URI,
                                           nb_namespaces, namespaces, nb_attributes, attributes);
@@ -397,7 +391,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
     }
 
     // archive when the first element after the root is <unit>
-    state->context->is_archive = (localname == UNIT_ENTRY);
+    state->context->is_archive = (localname == state->unit_entry);
 
     // turn off first_start_element() handling
     ctxt->sax->startElementNs = &start_element;
@@ -660,7 +654,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == ESCAPE_ENTRY) {
+        if (localname == state->escape_entry) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
@@ -720,7 +714,7 @@ void end_element(void* ctx, const xmlChar* localname, const xmlChar* prefix, con
     SRCSAX_DEBUG_END(localname);
 
     // plain end element
-    if (localname != UNIT_ENTRY) {
+    if (localname != state->unit_entry) {
         return;
     }
 
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index 2d31607..c3a9570 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -99,6 +99,12 @@ struct sax2_srcsax_handler {
     boost::optional<std::string> cpp_prefix;
 
     bool rootcalled = false;
+
+    // libxml2 places elements into a dictionary of the parser context
+    // once initialized, can compare pointers instead of strings
+    const xmlChar* unit_entry = nullptr;
+    const xmlChar* macro_list_entry = nullptr;
+    const xmlChar* escape_entry = nullptr;
 };
 
 /**
-- 
2.43.0


From 32769bc0c2b4f1e0dc0cbed6e93aebb6754741ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 025/115] fix: hand over between reading thread and caller
 without lost wakeups, and end after any error

---
 src/libsrcml/srcml_reader_handler.hpp | 45 ++++++++++++++++++---------
 src/libsrcml/srcml_sax2_reader.cpp    |  7 ++---
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 5198f30..c8b69f5 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -40,6 +40,7 @@
 
 #include <cstring>
 
+#include <atomic>
 #include <mutex>
 #include <condition_variable>
 #include <boost/optional.hpp>
@@ -95,7 +96,7 @@ private :
     srcml_unit* unit = nullptr;
 
     /** has reached end of parsing*/
-    bool is_done = false;
+    std::atomic<bool> is_done { false };
     /** has passed root*/
     bool read_root = false;
     /** stop after collecting unit attribute*/
@@ -104,7 +105,10 @@ private :
     bool collect_unit_body = false;
 
     /** terminate */
-    bool terminate = false;
+    std::atomic<bool> terminate { false };
+
+    /** turn of the parsing thread, as opposed to the calling thread */
+    bool parsing = true;
 
     /** indicate if we need to wait on the root */
     bool wait_root = true;
@@ -154,11 +158,7 @@ public :
 
         std::unique_lock<std::mutex> lock(mutex);
 
-        if (is_done)
-            return;
-
-        if (wait_root)
-            cond.wait(lock);
+        cond.wait(lock, [this]() { return !wait_root || is_done; });
     }
 
     /**
@@ -181,11 +181,27 @@ public :
     void resume_and_wait() {
 
         std::unique_lock<std::mutex> lock(mutex);
-        cond.notify_one();
         if (is_done)
             return;
 
-        cond.wait(lock);
+        parsing = true;
+        cond.notify_one();
+
+        cond.wait(lock, [this]() { return !parsing || is_done; });
+    }
+
+    /**
+     * pause
+     * @param lock lock of the mutex
+     *
+     * Hand over to the calling thread, and wait until resumed.
+     */
+    void pause(std::unique_lock<std::mutex>& lock) {
+
+        parsing = false;
+        cond.notify_one();
+
+        cond.wait(lock, [this]() { return parsing || terminate; });
     }
 
     /**
@@ -195,6 +211,8 @@ public :
      */
     void done() {
 
+        std::unique_lock<std::mutex> lock(mutex);
+
         is_done = true;
 
         cond.notify_one();
@@ -354,8 +372,7 @@ public :
                 if (terminate)
                     stop_parser();
                 wait_root = false;
-                cond.notify_one();
-                cond.wait(lock);
+                pause(lock);
                 read_root = true;
             }
 
@@ -381,8 +398,7 @@ public :
             if (terminate)
                 stop_parser();
 
-            cond.notify_one();
-            cond.wait(lock);
+            pause(lock);
         }
 
         state->collect_unit_body = collect_unit_body;
@@ -477,8 +493,7 @@ public :
             // pause
             std::unique_lock<std::mutex> lock(mutex);
             if (terminate) stop_parser();
-            cond.notify_one();
-            cond.wait(lock);
+            pause(lock);
         }
 
         if (terminate)
diff --git a/src/libsrcml/srcml_sax2_reader.cpp b/src/libsrcml/srcml_sax2_reader.cpp
index 567126d..c26cb34 100644
--- a/src/libsrcml/srcml_sax2_reader.cpp
+++ b/src/libsrcml/srcml_sax2_reader.cpp
@@ -45,13 +45,12 @@ static void* start_routine(thread_args* args) {
         if (!(error.error_code == XML_ERR_EXTRA_CONTENT || error.error_code == XML_ERR_DOCUMENT_END)) {
 
             fprintf(stderr, "Error Parsing: %s\n", error.message.c_str());
-
-            args->handler->done();
         }
-
-        // might have to release a lock here or set is_done
     }
 
+    // no more units, even when the end of the root was not reached
+    args->handler->done();
+
     return 0;
 }
 
-- 
2.43.0


From 8f1fae1f45069f9f59626b5ec578bc38f5d86f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 026/115] fix: allow an archive to be reopened, closed twice,
 and freed when null

---
 src/libsrcml/srcml_archive.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 18fe28d..0c1c550 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -107,6 +107,9 @@ const char* srcml_archive_error_string(const struct srcml_archive* archive) {
  */
 void srcml_archive_free(struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return;
+
     if (archive->translator) {
         delete archive->translator;
         archive->translator = nullptr;
@@ -126,9 +129,6 @@ void srcml_archive_free(struct srcml_archive* archive) {
         archive->reader = nullptr;
     }
 
-    if (archive == nullptr)
-        return;
-
     delete archive;
 }
 
@@ -1339,11 +1339,15 @@ void srcml_archive_close(struct srcml_archive* archive) {
         srcml_archive_write_create_translator_xml_buffer(archive);
     }
 
+    // the translator includes the output buffer
     if (archive->translator) {
         archive->translator->close();
+        delete archive->translator;
+        archive->translator = nullptr;
+        archive->output_buffer = nullptr;
     }
 
-    if (archive->rawwrites && archive->output_buffer) {
+    if (archive->output_buffer) {
         xmlOutputBufferClose(archive->output_buffer);
         archive->output_buffer = nullptr;
     }
@@ -1356,5 +1360,18 @@ void srcml_archive_close(struct srcml_archive* archive) {
         (*archive->buffer) = (char *) xmlBufferDetach(archive->xbuffer);
     }
 
+    // ready to be reopened
+    archive->buffer = nullptr;
+    archive->size = nullptr;
+    if (archive->xbuffer) {
+        xmlBufferFree(archive->xbuffer);
+        archive->xbuffer = nullptr;
+    }
+    if (archive->reader) {
+        delete archive->reader;
+        archive->reader = nullptr;
+    }
+    archive->rawwrites = false;
+
     archive->type = SRCML_ARCHIVE_INVALID;
 }
-- 
2.43.0


From 79a8d8c66b2e9c1738c06bd34101cdcc6ce8ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 027/115] fix: report output that cannot be opened

---
 src/libsrcml/srcml_archive.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 0c1c550..2670871 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -917,9 +917,13 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
     archive->output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
 
+    if (!archive->output_buffer)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
+
     return SRCML_STATUS_OK;
 }
 
@@ -940,14 +944,17 @@ int srcml_archive_write_open_memory(struct srcml_archive* archive, char** buffer
     if (archive == nullptr || buffer == nullptr || size == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
     archive->buffer = buffer;
     archive->size = size;
 
     archive->xbuffer = xmlBufferCreate();
     archive->output_buffer = xmlOutputBufferCreateBuffer(archive->xbuffer, 0);
 
+    if (!archive->output_buffer)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
+
     return SRCML_STATUS_OK;
 }
 
@@ -966,10 +973,13 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
     if (archive == nullptr || srcml_file == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
     archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, 0);
 
+    if (!archive->output_buffer)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
+
     return SRCML_STATUS_OK;
 }
 
@@ -988,10 +998,13 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive == nullptr || srcml_fd < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
     archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, 0);
 
+    if (!archive->output_buffer)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
+
     return SRCML_STATUS_OK;
 }
 
@@ -1013,10 +1026,13 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
     if (archive == nullptr || context == nullptr || write_callback == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
     archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, 0);
 
+    if (!archive->output_buffer)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
+
     return SRCML_STATUS_OK;
 }
 
-- 
2.43.0


From 744144d356df3d52a500c74f25b33f10d15c0805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 028/115] fix: return failure for null arguments and positions
 past the end

---
 src/libsrcml/srcml_archive.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 2670871..d7541fb 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -300,7 +300,7 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
  * @param archive a srcml_archive
  */
 int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
-    return (archive->options & SRCML_OPTION_ARCHIVE) == 0;
+    return archive && (archive->options & SRCML_OPTION_ARCHIVE) == 0;
 }
 
 /**
@@ -308,7 +308,7 @@ int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
  */
 int srcml_archive_has_hash(const struct srcml_archive* archive) {
 
-    return (archive->options & SRCML_OPTION_HASH) != 0;
+    return archive && (archive->options & SRCML_OPTION_HASH) != 0;
 }
 
 /**
@@ -504,7 +504,7 @@ int srcml_archive_register_namespace(struct srcml_archive* archive, const char*
  */
 int srcml_archive_set_processing_instruction(struct srcml_archive* archive, const char* target, const char* data) {
 
-    if (archive == nullptr)
+    if (archive == nullptr || target == nullptr || data == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     archive->processing_instruction = std::pair<std::string,std::string>(target, data);
@@ -692,7 +692,7 @@ const char* srcml_archive_get_namespace_prefix(const struct srcml_archive* archi
     if (archive == nullptr)
         return nullptr;
 
-    if (pos > archive->namespaces.size())
+    if (pos >= archive->namespaces.size())
         return nullptr;
 
     return archive->namespaces[pos].prefix.c_str();
@@ -763,7 +763,7 @@ const char* srcml_archive_get_uri_from_prefix(const struct srcml_archive* archiv
  */
 const char* srcml_archive_get_processing_instruction_target(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
+    return archive && archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
 }
 
 /**
@@ -774,7 +774,7 @@ const char* srcml_archive_get_processing_instruction_target(const struct srcml_a
  */
 const char* srcml_archive_get_processing_instruction_data(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ?  archive->processing_instruction->second.c_str() : 0;
+    return archive && archive->processing_instruction ?  archive->processing_instruction->second.c_str() : 0;
 }
 
 /**
-- 
2.43.0


From e61af572d348b04dcad2aeade89cb203804780a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 029/115] fix: accept null transformation results and indices
 before the first

---
 src/libsrcml/srcml_transform.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index c416342..302b9a2 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -568,7 +568,8 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         // if there are no results, then we can't apply further transformations
         // but there still might be results in the scalar values
         if (fullresults->nodeNr == 0) {
-            result->units.clear();
+            if (result)
+                result->units.clear();
             break;
         }
     }
@@ -769,6 +770,9 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
  */
 int srcml_transform_free(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
     for (auto unit : result->units) {
         srcml_unit_free(unit);
     }
@@ -784,7 +788,7 @@ int srcml_transform_free(struct srcml_transform_result* result) {
  */
 LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result) {
 
-    return result->type;
+    return result ? result->type : SRCML_RESULT_NONE;
 }
 
 /**
@@ -794,7 +798,7 @@ LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result
 int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
        return 0;
 
     return (int) result->units.size();
@@ -808,10 +812,10 @@ int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* result, int index) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
         return 0;
 
-    if (index >= (int) result->units.size())
+    if (index < 0 || index >= (int) result->units.size())
         return 0;
 
     return result->units[index];
@@ -824,7 +828,7 @@ struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* resul
 const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_STRING)
+    if (result == nullptr || result->type != SRCML_RESULT_STRING)
         return 0;
 
     if (!result->stringValue)
@@ -840,7 +844,7 @@ const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 double srcml_transform_get_number(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_NUMBER)
+    if (result == nullptr || result->type != SRCML_RESULT_NUMBER)
         return 0;
 
     if (!result->numberValue)
@@ -856,7 +860,7 @@ double srcml_transform_get_number(struct srcml_transform_result* result) {
 int srcml_transform_get_bool(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_BOOLEAN)
+    if (result == nullptr || result->type != SRCML_RESULT_BOOLEAN)
         return -1;
 
     if (!result->boolValue)
-- 
2.43.0


From dd190e59aee5d34c2dbb4ad2fb4441a852774276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 030/115] fix: keep the kind of archive and hash when setting
 options

---
 src/libsrcml/srcml_archive.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index d7541fb..4d31edc 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -284,6 +284,9 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
     if (archive == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // only the public options are cleared, i.e., not the kind of archive or the hash
+    archive->options &= ~(OPTION_TYPE)(((1<<7) - 1) | SRCML_OPTION_CPP_DECLARED);
+
     // if the user specified cpp, then mark that it was declared
     if (options & SRCML_OPTION_CPP) {
         archive->options |= SRCML_OPTION_CPP_DECLARED;
@@ -291,7 +294,7 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
 
     int modoption = options % (1<<7);
 
-    archive->options = modoption;
+    archive->options |= modoption;
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From b7572b1f2c810ddf0299a4959e5f96cc57f2c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 031/115] fix: extract source from results without namespace
 declarations

---
 src/libsrcml/unit_utilities.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index 7b5d181..27ebac9 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -164,7 +164,7 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
 
     charactersax.startElementNs = [](void* ctx, const xmlChar* localname, const xmlChar* /* prefix */, const xmlChar* URI,
                      int /* nb_namespaces */, const xmlChar** /* namespaces */,
-                     int /* nb_attributes */, int /* nb_defaulted */, const xmlChar** attributes) {
+                     int nb_attributes, int /* nb_defaulted */, const xmlChar** attributes) {
 
         auto ctxt = (xmlParserCtxtPtr) ctx;
         if (ctxt == nullptr)
@@ -173,14 +173,15 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
         if (scontext == nullptr)
             return;
 
-        if (strcmp((const char*) localname, "escape") == 0 && strcmp((const char*) URI, SRCML_SRC_NS_URI) == 0) {
+        // results of transformations do not have namespace declarations
+        if (strcmp((const char*) localname, "escape") == 0 && nb_attributes > 0 && (URI == nullptr || strcmp((const char*) URI, SRCML_SRC_NS_URI) == 0)) {
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
             char value = (int)strtol(svalue.c_str(), NULL, 0);
 
             scontext->s.append(1, value);
 
-        } else if (scontext->revision && strcmp((const char*) URI, SRCML_DIFF_NS_URI) == 0) {
+        } else if (scontext->revision && URI != nullptr && strcmp((const char*) URI, SRCML_DIFF_NS_URI) == 0) {
 
             if (std::string((const char*) localname) == "INSERT")
                 scontext->mode.push(INSERT);
-- 
2.43.0


From f5ccb94f6efa5935f300d02d2890a341032e1259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 032/115] fix: write well-formed results for document, text,
 attribute, and namespace nodes

---
 src/libsrcml/srcml_transform.cpp     | 46 ++++++++++++++++++++++++++--
 src/libsrcml/xpathTransformation.cpp | 15 ++++++++-
 2 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 302b9a2..40244be 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -467,6 +467,29 @@ int srcml_clear_transforms(srcml_archive* archive) {
     return SRCML_STATUS_OK;
 }
 
+// append the text, escaped for the content of an element
+static void append_escaped(std::string& srcml, const char* text) {
+
+    for (; text && *text; ++text) {
+        switch (*text) {
+        case '<':
+            srcml.append("&lt;");
+            break;
+        case '>':
+            srcml.append("&gt;");
+            break;
+        case '&':
+            srcml.append("&amp;");
+            break;
+        case '\r':
+            srcml.append("&#13;");
+            break;
+        default:
+            srcml.append(1, *text);
+        }
+    }
+}
+
 static bool usesURI(xmlNode* cur_node, const std::string& URI);
 
 static bool usesURIChildren(xmlNode* a_node, const std::string& URI) {
@@ -653,16 +676,33 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
 
         case XML_TEXT_NODE:
 
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->content);
+            append_escaped(nunit->srcml, (const char*) fullresults->nodeTab[i]->content);
             break;
 
-        case XML_ATTRIBUTE_NODE:
+        case XML_ATTRIBUTE_NODE: {
 
             nunit->srcml.append((const char*) fullresults->nodeTab[i]->name);
             nunit->srcml.append("=\"");
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->children->content);
+            xmlChar* value = xmlNodeGetContent(fullresults->nodeTab[i]);
+            append_escaped(nunit->srcml, (const char*) value);
+            xmlFree(value);
             nunit->srcml.append("\"");
             break;
+        }
+
+        case XML_NAMESPACE_DECL: {
+
+            auto ns = (xmlNsPtr) fullresults->nodeTab[i];
+            nunit->srcml.append("xmlns");
+            if (ns->prefix) {
+                nunit->srcml.append(":");
+                nunit->srcml.append((const char*) ns->prefix);
+            }
+            nunit->srcml.append("=\"");
+            append_escaped(nunit->srcml, (const char*) ns->href);
+            nunit->srcml.append("\"");
+            break;
+        }
 
         default:
 
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index cbaf66b..b96c21f 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -343,7 +343,20 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     if (!result_nodes->nodesetval->nodeNr)
         return tresult;
 
-    if (result_nodes->nodesetval->nodeTab[0] && result_nodes->nodesetval->nodeTab[0]->name &&
+    // the document stands for its root element
+    for (int i = 0; i < result_nodes->nodesetval->nodeNr; ++i) {
+
+        auto onode = result_nodes->nodesetval->nodeTab[i];
+        if (onode->type != XML_DOCUMENT_NODE)
+            continue;
+
+        xmlXPathNodeSetRemove(result_nodes->nodesetval, i);
+        xmlXPathNodeSetAdd(result_nodes->nodesetval, xmlDocGetRootElement(doc));
+        xmlXPathNodeSetSort(result_nodes->nodesetval);
+        break;
+    }
+
+    if (result_nodes->nodesetval->nodeTab[0] && result_nodes->nodesetval->nodeTab[0]->type == XML_ELEMENT_NODE &&
         strcmp((const char*) result_nodes->nodesetval->nodeTab[0]->name, "unit") == 0)
         tresult.unitWrapped = true;
 
-- 
2.43.0


From 3f87c221878521c71d5e528142660bb12a28601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 033/115] fix: write whole elements for results that also
 include the unit

---
 src/libsrcml/Transformation.hpp      |  1 +
 src/libsrcml/srcml_transform.cpp     | 16 ++++++++++++----
 src/libsrcml/xpathTransformation.cpp |  1 +
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/Transformation.hpp b/src/libsrcml/Transformation.hpp
index 5c1385b..6263ce7 100644
--- a/src/libsrcml/Transformation.hpp
+++ b/src/libsrcml/Transformation.hpp
@@ -41,6 +41,7 @@ struct TransformationResult {
     bool boolValue = false;
     std::string stringValue;
     bool unitWrapped = false;
+    bool unitMixed = false;
     std::shared_ptr<xmlDoc> doc;
 };
 
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 40244be..42a871b 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -644,7 +644,15 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         // create a new unit to store the results in
         auto nunit = srcml_unit_clone(unit);
         nunit->read_body = nunit->read_header = true;
-        if (!lastresult.unitWrapped) {
+
+        // results of the same query may be a mix of units and parts of units
+        bool unitWrapped = lastresult.unitWrapped;
+        if (unitWrapped && lastresult.unitMixed) {
+            auto node = fullresults->nodeTab[i];
+            unitWrapped = node->type == XML_ELEMENT_NODE && strcmp((const char*) node->name, "unit") == 0;
+        }
+
+        if (!unitWrapped) {
             nunit->attributes.push_back("item");
             nunit->attributes.push_back(std::to_string(i + 1));
             nunit->hash = boost::none;
@@ -744,13 +752,13 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         }
 
         // mark inside the units
-        nunit->content_begin = lastresult.unitWrapped ? (int) nunit->srcml.find_first_of('>') + 1 : 0;
-        nunit->content_end =   lastresult.unitWrapped ? (int) nunit->srcml.find_last_of('<') + 1  : (int) nunit->srcml.size() + 1;
+        nunit->content_begin = unitWrapped ? (int) nunit->srcml.find_first_of('>') + 1 : 0;
+        nunit->content_end =   unitWrapped ? (int) nunit->srcml.find_last_of('<') + 1  : (int) nunit->srcml.size() + 1;
         nunit->insert_begin = 0;
         nunit->insert_end = 0;
 
         // update the unit attributes with the transformed result based on the root tag
-        if (lastresult.unitWrapped) {
+        if (unitWrapped) {
             xmlSAXHandler roottagsax;
             memset(&roottagsax, 0, sizeof(roottagsax));
             roottagsax.initialized    = XML_SAX2_MAGIC;
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index b96c21f..cfc56a8 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -359,6 +359,7 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     if (result_nodes->nodesetval->nodeTab[0] && result_nodes->nodesetval->nodeTab[0]->type == XML_ELEMENT_NODE &&
         strcmp((const char*) result_nodes->nodesetval->nodeTab[0]->name, "unit") == 0)
         tresult.unitWrapped = true;
+    tresult.unitMixed = result_nodes->nodesetval->nodeNr > 1;
 
     tresult.nodeset.reset(result_nodes->nodesetval);
     result_nodes->nodesetval = nullptr;
-- 
2.43.0


From ddd1a9055ea1cd7d788f3c70bb4a99ed398d5ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 034/115] fix: use the same item attribute for results of
 results

---
 src/libsrcml/srcml_transform.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 42a871b..b673596 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -653,8 +653,21 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         }
 
         if (!unitWrapped) {
-            nunit->attributes.push_back("item");
-            nunit->attributes.push_back(std::to_string(i + 1));
+
+            // the unit may already be the item of a previous result
+            auto item = std::to_string(i + 1);
+            bool found = false;
+            for (size_t j = 0; j + 1 < nunit->attributes.size(); j += 2) {
+                if (nunit->attributes[j] == "item") {
+                    nunit->attributes[j + 1] = item;
+                    found = true;
+                    break;
+                }
+            }
+            if (!found) {
+                nunit->attributes.push_back("item");
+                nunit->attributes.push_back(item);
+            }
             nunit->hash = boost::none;
         }
 
-- 
2.43.0


From b639485806a73f065ddfba0b731dc663849afb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 035/115] fix: add an attribute only once to an XPath result

---
 src/libsrcml/xpathTransformation.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index cfc56a8..c38417b 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -168,21 +168,27 @@ int xpathTransformation::child_offset(xmlNodePtr root_result_node) {
  */
 void xpathTransformation::append_attribute_to_node(xmlNodePtr node, const char* attr_prefix, const char* attr_uri) const {
 
+    // only elements have attributes
+    if (node->type != XML_ELEMENT_NODE)
+        return;
+
     // grab current value
-    const char* value = (char*) xmlGetNsProp(node, BAD_CAST attr_name.c_str(), BAD_CAST attr_uri);
+    xmlChar* value = xmlGetNsProp(node, BAD_CAST attr_name.c_str(), BAD_CAST attr_uri);
     const char* newvalue = attr_value.c_str();
 
     // previous property
     std::string curvalue;
-    if (value && strcmp(value, newvalue)) {
+    if (value && strcmp((const char*) value, newvalue)) {
 
-        curvalue = value;
+        curvalue = (const char*) value;
         curvalue += ' ';
         curvalue += attr_value;
         newvalue = curvalue.c_str();
     }
+    xmlFree(value);
 
-    xmlNewNsProp(node, attr_ns, (const xmlChar *) attr_name.c_str(), (const xmlChar *) newvalue);
+    // replaces any previous property, as the attribute can only occur once
+    xmlSetNsProp(node, attr_ns, (const xmlChar *) attr_name.c_str(), (const xmlChar *) newvalue);
 }
 
 xmlXPathContextPtr xpathTransformation::createContext(xmlDocPtr doc) const {
@@ -327,7 +333,7 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
 
                 xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
-                append_attribute_to_node(onode, attr_prefix.c_str(), attr_value.c_str());
+                append_attribute_to_node(onode, attr_prefix.c_str(), attr_uri.c_str());
             }
         }
         tresult.unitWrapped = true;
-- 
2.43.0


From 0c247165274b45926be1d7abf0ed05a366e6f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 036/115] fix: mark XPath results with both element and
 attribute, and the content of the unit

---
 src/libsrcml/srcml_transform.cpp     |  1 +
 src/libsrcml/xpathTransformation.cpp | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index b673596..cdb9bdd 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -141,6 +141,7 @@ int srcml_append_transform_xpath_attribute(struct srcml_archive* archive, const
             p->attr_uri = namespace_uri;
             p->attr_name = attr_name;
             p->attr_value = attr_value;
+            p->attr_ns = xmlNewNs(NULL, BAD_CAST namespace_uri, BAD_CAST prefix);
 
             return SRCML_STATUS_OK;
         }
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index c38417b..6c8892a 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -386,6 +386,14 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
 
         xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
+        // the document stands for its root element
+        if (onode->type == XML_DOCUMENT_NODE)
+            onode = a_node;
+
+        // attributes and namespaces are not content, so cannot be put in an element
+        if (onode->type == XML_ATTRIBUTE_NODE || onode->type == XML_NAMESPACE_DECL)
+            continue;
+
         // set up node to insert
         xmlNodePtr element_node = xmlNewNode(element_ns, (const xmlChar*) element.c_str());
 
@@ -404,6 +412,8 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
 
             element_node->children = onode->children;
             element_node->last = onode->last;
+            for (auto child = element_node->children; child; child = child->next)
+                child->parent = element_node;
             element_node->parent = onode;
             element_node->next = 0;
             element_node->prev = 0;
-- 
2.43.0


From 2cf6a584d93afa894a77579a7373bfaa8f6b6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 037/115] fix: report an invalid XSLT or RelaxNG document
 instead of terminating

---
 src/libsrcml/relaxngTransformation.cpp |  8 +++++---
 src/libsrcml/srcml_transform.cpp       | 21 +++++++++++++++++++--
 src/libsrcml/xsltTransformation.cpp    |  4 +++-
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index fc9f286..0f8358d 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -22,6 +22,8 @@
 
 #include <relaxngTransformation.hpp>
 
+#include <stdexcept>
+
 /**
  * relaxngTransformation
  * @param options list of srcML options
@@ -34,15 +36,15 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
 
     relaxng_parser_ctxt = decltype(relaxng_parser_ctxt)(xmlRelaxNGNewDocParserCtxt(relaxng));
     if (relaxng_parser_ctxt == nullptr)
-        throw;
+        throw std::invalid_argument("RelaxNG");
 
     rng = decltype(rng)(xmlRelaxNGParse(relaxng_parser_ctxt.get()));
     if (rng == nullptr)
-        throw;
+        throw std::invalid_argument("RelaxNG");
 
     rngctx = decltype(rngctx)(xmlRelaxNGNewValidCtxt(rng.get()));
     if (rngctx == nullptr)
-        throw;
+        throw std::invalid_argument("RelaxNG");
 }
 
 /**
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index cdb9bdd..7861d15 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -192,7 +192,17 @@ static int srcml_append_transform_xslt_internal(srcml_archive* archive, std::uni
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new xsltTransformation(doc.release(), std::vector<std::string>())));
+    try {
+
+        archive->transformations.push_back(std::unique_ptr<Transformation>(new xsltTransformation(doc.get(), std::vector<std::string>())));
+
+    } catch (const std::exception&) {
+
+        return SRCML_STATUS_INVALID_ARGUMENT;
+    }
+
+    // now owned by the stylesheet
+    doc.release();
 
     return SRCML_STATUS_OK;
 }
@@ -303,7 +313,14 @@ static int srcml_append_transform_relaxng_internal(srcml_archive* archive, xmlDo
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new relaxngTransformation(doc)));
+    try {
+
+        archive->transformations.push_back(std::unique_ptr<Transformation>(new relaxngTransformation(doc)));
+
+    } catch (const std::exception&) {
+
+        return SRCML_STATUS_INVALID_ARGUMENT;
+    }
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 02a248d..5f26947 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -27,6 +27,8 @@
 
 #include <srcml_sax2_utilities.hpp>
 
+#include <stdexcept>
+
 #ifdef DLLOAD
 #include <dlfcn.h>
 #else
@@ -113,7 +115,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     // parse the stylesheet
     stylesheet = xsltParseStylesheetDoc(xslt);
     if (!stylesheet)
-        throw;
+        throw std::invalid_argument("XSLT");
 }
 
 /**
-- 
2.43.0


From 360b7e274f1149bec17c530d0a47bef0fc54391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 038/115] fix: apply transformations to all results of the
 previous one without taking them apart

---
 src/libsrcml/srcml_transform.cpp | 48 +++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 7861d15..b33f7b6 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -567,6 +567,9 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
     if (doc == nullptr)
         return SRCML_STATUS_ERROR;
 
+    // documents of results, which have to exist until the results are written
+    std::vector<std::shared_ptr<xmlDoc>> docs;
+
     // apply transformations sequentially on the results from the previous transformation
     std::unique_ptr<xmlNodeSet> fullresults(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc.get())));
     if (fullresults == nullptr)
@@ -574,7 +577,6 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
 
     // final result of all applied transformations
     TransformationResult lastresult;
-    std::shared_ptr<xmlDoc> curdoc(doc);
     for (const auto& trans : archive->transformations) {
 
         // preserve the fullresults to iterate through
@@ -585,12 +587,43 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             return SRCML_STATUS_ERROR;
         fullresults.swap(pr);
 
+        lastresult = TransformationResult();
         for (int i = 0; i < pr->nodeNr; ++i) {
 
-            xmlDocSetRootElement(curdoc.get(), pr->nodeTab[i]);
+            // only elements can be transformed
+            xmlNodePtr node = pr->nodeTab[i];
+            if (node->type != XML_ELEMENT_NODE)
+                continue;
+
+            // transform the node as the root of its document, and then put it back
+            // where it was, as it may be part of the other nodes
+            xmlDocPtr nodedoc = node->doc;
+            xmlNodePtr root = xmlDocGetRootElement(nodedoc);
+            xmlNodePtr parent = node->parent;
+            xmlNodePtr next = node->next;
+            if (node != root)
+                xmlDocSetRootElement(nodedoc, node);
+
+            TransformationResult curresult = trans->apply(nodedoc, 0);
+
+            if (node != root) {
+                xmlReplaceNode(node, root);
+                if (next)
+                    xmlAddPrevSibling(next, node);
+                else
+                    xmlAddChild(parent, node);
+            }
+
+            // no results, but there may be results for the rest
+            if (curresult.nodeset == nullptr && curresult.nodeType == SRCML_RESULT_NONE)
+                continue;
 
-            lastresult = trans->apply(curdoc.get(), 0);
-            std::unique_ptr<xmlNodeSet> results(std::move(lastresult.nodeset));
+            // result of the transformation may be a new doc
+            if (curresult.doc)
+                docs.push_back(curresult.doc);
+
+            std::unique_ptr<xmlNodeSet> results(std::move(curresult.nodeset));
+            lastresult = std::move(curresult);
             if (results == nullptr)
                 break;
 
@@ -601,11 +634,6 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         // does NOT cause a memory leak
         pr->nodeNr = 0;
 
-        // result of the transformation may be a new doc
-        if (lastresult.doc && lastresult.doc.get() != doc.get()) {
-            curdoc = lastresult.doc;
-        }
-
         // if there are no results, then we can't apply further transformations
         // but there still might be results in the scalar values
         if (fullresults->nodeNr == 0) {
@@ -753,7 +781,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
                 return len;
 
             }, 0, &(nunit->srcml), 0);
-            xmlNodeDumpOutput(output, curdoc.get(), fullresults->nodeTab[i], 0, 0, 0);
+            xmlNodeDumpOutput(output, fullresults->nodeTab[i]->doc, fullresults->nodeTab[i], 0, 0, 0);
 
             // very important to flush to make sure the unit contents are all present
             // also performs a free of resources
-- 
2.43.0


From eae922780ff8f4068ad5817ddee2d1a2cfc8416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 039/115] fix: return text results of XSLT as they are

---
 src/libsrcml/xsltTransformation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 5f26947..34289d0 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -188,8 +188,9 @@ TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */
 
     // text result
     if (result.nodeType == SRCML_RESULT_STRING) {
-        auto str = (char*) xmlNodeListGetRawString(res.get(), res->children, 0);
-        result.stringValue = str;
+        auto str = (char*) xmlNodeListGetRawString(res.get(), res->children, 1);
+        if (str)
+            result.stringValue = str;
         xmlFree(str);
     }
     return result;
-- 
2.43.0


From 02d0b0a183061f84653a4e94bd73e74987d318b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 040/115] fix: put marks of parts of a unit and of the document
 where they belong

---
 src/libsrcml/srcml_transform.cpp     |  3 ++-
 src/libsrcml/xpathTransformation.cpp | 40 +++++++++++++---------------
 2 files changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index b33f7b6..46deeb7 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -695,7 +695,8 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         bool unitWrapped = lastresult.unitWrapped;
         if (unitWrapped && lastresult.unitMixed) {
             auto node = fullresults->nodeTab[i];
-            unitWrapped = node->type == XML_ELEMENT_NODE && strcmp((const char*) node->name, "unit") == 0;
+            unitWrapped = node->type == XML_ELEMENT_NODE && strcmp((const char*) node->name, "unit") == 0 &&
+                (!node->ns || strcmp((const char*) node->ns->href, SRCML_SRC_NS_URI) == 0);
         }
 
         if (!unitWrapped) {
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index 6c8892a..602d486 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -315,6 +315,22 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     if (result_nodes->type != XPATH_NODESET)
         return tresult;
 
+    // the document stands for its root element
+    for (int i = 0; result_nodes->nodesetval && i < result_nodes->nodesetval->nodeNr; ++i) {
+
+        auto onode = result_nodes->nodesetval->nodeTab[i];
+        if (onode->type != XML_DOCUMENT_NODE)
+            continue;
+
+        xmlXPathNodeSetRemove(result_nodes->nodesetval, i);
+        xmlXPathNodeSetAdd(result_nodes->nodesetval, xmlDocGetRootElement(doc));
+        xmlXPathNodeSetSort(result_nodes->nodesetval);
+        break;
+    }
+
+    // the result may be the unit or a part of it
+    tresult.unitMixed = true;
+
     if (!element.empty()) {
 
         addElementXPathResults(doc, result_nodes.get());
@@ -349,23 +365,7 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     if (!result_nodes->nodesetval->nodeNr)
         return tresult;
 
-    // the document stands for its root element
-    for (int i = 0; i < result_nodes->nodesetval->nodeNr; ++i) {
-
-        auto onode = result_nodes->nodesetval->nodeTab[i];
-        if (onode->type != XML_DOCUMENT_NODE)
-            continue;
-
-        xmlXPathNodeSetRemove(result_nodes->nodesetval, i);
-        xmlXPathNodeSetAdd(result_nodes->nodesetval, xmlDocGetRootElement(doc));
-        xmlXPathNodeSetSort(result_nodes->nodesetval);
-        break;
-    }
-
-    if (result_nodes->nodesetval->nodeTab[0] && result_nodes->nodesetval->nodeTab[0]->type == XML_ELEMENT_NODE &&
-        strcmp((const char*) result_nodes->nodesetval->nodeTab[0]->name, "unit") == 0)
-        tresult.unitWrapped = true;
-    tresult.unitMixed = result_nodes->nodesetval->nodeNr > 1;
+    tresult.unitWrapped = true;
 
     tresult.nodeset.reset(result_nodes->nodesetval);
     result_nodes->nodesetval = nullptr;
@@ -386,16 +386,12 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
 
         xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
-        // the document stands for its root element
-        if (onode->type == XML_DOCUMENT_NODE)
-            onode = a_node;
-
         // attributes and namespaces are not content, so cannot be put in an element
         if (onode->type == XML_ATTRIBUTE_NODE || onode->type == XML_NAMESPACE_DECL)
             continue;
 
         // set up node to insert
-        xmlNodePtr element_node = xmlNewNode(element_ns, (const xmlChar*) element.c_str());
+        xmlNodePtr element_node = xmlNewDocNode(doc, element_ns, (const xmlChar*) element.c_str(), NULL);
 
         if (!attr_name.empty())
             append_attribute_to_node(element_node, !attr_uri.empty() ? attr_prefix.c_str() : prefix.c_str(),
-- 
2.43.0


From 358dcab6c0309b5d0d26f79bf2c22b6ea8308963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 041/115] fix: write the source encoding of a transformed unit
 only once

---
 src/libsrcml/unit_utilities.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index 27ebac9..b0c6c58 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -61,6 +61,8 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
             srcml_unit_set_version(unit, value.c_str());
         else if (attribute == "tabs" || attribute == "options" || attribute == "hash")
             ;
+        else if (attribute == "src-encoding" && unit->encoding)
+            unit->encoding = value;
         else {
             // if we already have the attribute, then just update the value
             // otherwise create a new one
-- 
2.43.0


From bd194acdc3b79290d42e67fb59428214bc221e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 042/115] fix: keep the namespaces declared on a unit that is
 read

---
 src/libsrcml/sax2_srcsax_handler.cpp  |  8 ------
 src/libsrcml/sax2_srcsax_handler.hpp  |  2 --
 src/libsrcml/srcml_reader_handler.hpp | 40 +++++++++++++++------------
 src/parser/srcMLOutput.cpp            |  6 ++++
 4 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 8f2be71..cb73c81 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -446,14 +446,6 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     if (state == nullptr)
         return;
 
-    // collect cpp prefix
-    for (int i = 0; i < nb_namespaces; ++i) {
-
-        if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
-            state->cpp_prefix = namespaces[i * 2] ? "" : (const char*) namespaces[i * 2];
-        }
-    }
-
     update_ctx(ctx);
 
     SRCSAX_DEBUG_START(localname);
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index c3a9570..07864e9 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -96,8 +96,6 @@ struct sax2_srcsax_handler {
 
     int loc = 0;
 
-    boost::optional<std::string> cpp_prefix;
-
     bool rootcalled = false;
 
     // libxml2 places elements into a dictionary of the parser context
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index c8b69f5..2cfe6c0 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -386,6 +386,28 @@ public :
         // collect attributes
         unit_update_attributes(unit, num_attributes, attributes);
 
+        // collect namespaces of the unit with the found prefix, plus mark as used
+        for (int pos = 0; pos < num_namespaces; ++pos) {
+
+            std::string prefix = (const char*) namespaces[pos * 2] ? (const char*) namespaces[pos * 2] : "";
+            std::string uri = (const char*) namespaces[pos * 2 + 1] ? (const char*) namespaces[pos * 2 + 1] : "";
+
+            srcml_uri_normalize(uri);
+
+            // namespaces probably aren't create yet
+            if (!unit->namespaces) {
+                unit->namespaces = default_namespaces;
+            }
+
+            auto&& view = unit->namespaces->get<nstags::uri>();
+            auto it = view.find(uri);
+            if (it != view.end()) {
+                view.modify(it, [prefix](Namespace& thisns){ thisns.prefix = prefix; thisns.flags |= NS_USED; });
+            } else {
+                unit->namespaces->push_back({ prefix, uri, NS_USED });
+            }
+        }
+
         auto ctxt = (xmlParserCtxtPtr) get_controller().getContext()->libxml2_context;
         auto state = (sax2_srcsax_handler*) ctxt->_private;
 
@@ -472,24 +494,6 @@ public :
             unit->src = std::move(state->unitsrc);
             unit->loc = state->loc;
 
-            // update provisional cpp prefix
-            if (state->cpp_prefix) {
-
-                // namespaces probably aren't create yet
-                if (!unit->namespaces) {
-                    unit->namespaces = default_namespaces;
-                }
-
-                // set the found prefix, plus mark it as used
-                auto&& view = unit->namespaces->get<nstags::uri>();
-                auto it = view.find(SRCML_CPP_NS_URI);
-                if (it != view.end()) {
-                    view.modify(it, [](Namespace& thisns){ thisns.flags |= NS_USED; });
-                } else {
-                    unit->namespaces->push_back({ state->cpp_prefix->c_str(), SRCML_CPP_NS_URI, NS_USED | NS_STANDARD });
-                }
-            }
-
             // pause
             std::unique_lock<std::mutex> lock(mutex);
             if (terminate) stop_parser();
diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 1411a0c..833a485 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -284,6 +284,12 @@ void srcMLOutput::outputNamespaces(xmlTextWriterPtr xout, const OPTION_TYPE& opt
                 srcMLTextWriterWriteNamespace(xout, ns);
                 continue;
             }
+
+            // must be declared on the unit that was read
+            if (!(ns.flags & NS_STANDARD) && !(ns.flags & NS_REGISTERED) && (ns.flags & NS_USED)) {
+                srcMLTextWriterWriteNamespace(xout, ns);
+                continue;
+            }
         }
     }
 }
-- 
2.43.0


From faa5bd421397da37f0721ff7619930883d3efd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:03 +0000
Subject: [PATCH 043/115] fix: write whole parts of units that are marked or
 validated

---
 src/libsrcml/Transformation.hpp      | 1 -
 src/libsrcml/srcml_transform.cpp     | 4 ++--
 src/libsrcml/xpathTransformation.cpp | 3 ---
 3 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/Transformation.hpp b/src/libsrcml/Transformation.hpp
index 6263ce7..5c1385b 100644
--- a/src/libsrcml/Transformation.hpp
+++ b/src/libsrcml/Transformation.hpp
@@ -41,7 +41,6 @@ struct TransformationResult {
     bool boolValue = false;
     std::string stringValue;
     bool unitWrapped = false;
-    bool unitMixed = false;
     std::shared_ptr<xmlDoc> doc;
 };
 
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 46deeb7..aff3372 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -691,9 +691,9 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         auto nunit = srcml_unit_clone(unit);
         nunit->read_body = nunit->read_header = true;
 
-        // results of the same query may be a mix of units and parts of units
+        // results may be a mix of units and parts of units
         bool unitWrapped = lastresult.unitWrapped;
-        if (unitWrapped && lastresult.unitMixed) {
+        if (unitWrapped) {
             auto node = fullresults->nodeTab[i];
             unitWrapped = node->type == XML_ELEMENT_NODE && strcmp((const char*) node->name, "unit") == 0 &&
                 (!node->ns || strcmp((const char*) node->ns->href, SRCML_SRC_NS_URI) == 0);
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index 602d486..234e9c4 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -328,9 +328,6 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
         break;
     }
 
-    // the result may be the unit or a part of it
-    tresult.unitMixed = true;
-
     if (!element.empty()) {
 
         addElementXPathResults(doc, result_nodes.get());
-- 
2.43.0


From ee07b0d886c4dfc7260ed0070b3eaa054932ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 044/115] fix: take all units of an XSLT result, after other
 nodes also

---
 src/libsrcml/xsltTransformation.cpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 34289d0..6479fa5 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -163,28 +163,15 @@ TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */
         return TransformationResult();
     }
 
-    // transformation result is nodeset with single unit, and the unit is wrapped
-    TransformationResult result(xmlXPathNodeSetCreate(res->children), true);
+    // transformation result is the elements, i.e., units, at the top of the result
+    // more than one is not well-formed due to lack of root element, and libxml2 types this as text
+    TransformationResult result(xmlXPathNodeSetCreate(0), true);
     result.doc = res;
-    result.nodeType = res->children->type == 1 ? SRCML_RESULT_UNITS : SRCML_RESULT_STRING;
-
-    // transformation may produce more than one unit, but not be well-formed due to lack of root element
-    // so create a nodeset of those parts, and change the type since libxml2 has this as text
-    if (res->children->next && res->children->next->type == 1) {
-
-        // libxml2 types this as text since there is no root element
-        result.nodeType = SRCML_RESULT_UNITS;
-
-        // remove the res->children since it may not be a unit
-        xmlXPathNodeSetRemove(result.nodeset.get(), 0);
-
-        // add each unit to the nodeset
-        for (auto p = res->children; p; p = p->next) {
-            if (p->type != 1)
-                continue;
-            xmlXPathNodeSetMerge(result.nodeset.get(), xmlXPathNodeSetCreate(p));
-        }
+    for (auto p = res->children; p; p = p->next) {
+        if (p->type == XML_ELEMENT_NODE)
+            xmlXPathNodeSetAdd(result.nodeset.get(), p);
     }
+    result.nodeType = result.nodeset->nodeNr ? SRCML_RESULT_UNITS : SRCML_RESULT_STRING;
 
     // text result
     if (result.nodeType == SRCML_RESULT_STRING) {
@@ -192,6 +179,7 @@ TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */
         if (str)
             result.stringValue = str;
         xmlFree(str);
+        result.nodeset.reset();
     }
     return result;
 }
-- 
2.43.0


From 12cf808a67e548ca75b2a62cef239a49543b0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 045/115] fix: allow quotes in string parameters of XSLT

---
 src/libsrcml/srcml_transform.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index aff3372..65dd2ec 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -442,9 +442,9 @@ int srcml_append_transform_param(srcml_archive* archive, const char* xpath_param
  * srcml_append_transform_stringparam
  * @param archive a srcml archive
  * @param xpath_param_name name of a parameter
- * @param xpath_param_value value of the named parameter will be wrapped in "
+ * @param xpath_param_value value of the named parameter will be wrapped in quotes
  *
- * Append the parameter to the last transformation with the value wrapped in ".
+ * Append the parameter to the last transformation with the value wrapped in quotes.
  *
  * @returns Returns SRCML_STATUS_OK on success and a status errors code on failure.
  */
@@ -457,9 +457,23 @@ int srcml_append_transform_stringparam(srcml_archive* archive, const char* xpath
 
     archive->transformations.back()->xsl_parameters.push_back(xpath_param_name);
 
-    std::string parenvalue = "\"";
-    parenvalue += xpath_param_value;
-    parenvalue += "\"";
+    // XPath literal of the value, which has to be put together when it contains both kinds of quotes
+    const std::string value = xpath_param_value;
+    std::string parenvalue;
+    if (value.find('"') == std::string::npos) {
+        parenvalue = "\"" + value + "\"";
+    } else if (value.find('\'') == std::string::npos) {
+        parenvalue = "'" + value + "'";
+    } else {
+        parenvalue = "concat(\"";
+        for (auto c : value) {
+            if (c == '"')
+                parenvalue += "\", '\"', \"";
+            else
+                parenvalue += c;
+        }
+        parenvalue += "\")";
+    }
 
     archive->transformations.back()->xsl_parameters.push_back(parenvalue);
 
-- 
2.43.0


From ad30a3ec40ba7ca8451ee79caf51d09f3673846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 046/115] fix: remove attributes from the unit that a
 transformation removed

---
 src/libsrcml/srcml_transform.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 65dd2ec..932e72f 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -864,6 +864,13 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             auto save_sax = context->sax;
             context->sax = &roottagsax;
 
+            // attributes are the ones of the result, without those the transformation removed
+            nunit->filename = boost::none;
+            nunit->version = boost::none;
+            nunit->timestamp = boost::none;
+            nunit->hash = boost::none;
+            nunit->attributes.clear();
+
             // parse our single-element unit
             xmlParseDocument(context);
 
-- 
2.43.0


From 42dd2cda06af27978f6a2a3b1203df2b6b33040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 047/115] fix: validate each unit with RelaxNG on its own

---
 src/libsrcml/relaxngTransformation.cpp | 9 +++++----
 src/libsrcml/relaxngTransformation.hpp | 1 -
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index 0f8358d..1bb0d55 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -41,10 +41,6 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
     rng = decltype(rng)(xmlRelaxNGParse(relaxng_parser_ctxt.get()));
     if (rng == nullptr)
         throw std::invalid_argument("RelaxNG");
-
-    rngctx = decltype(rngctx)(xmlRelaxNGNewValidCtxt(rng.get()));
-    if (rngctx == nullptr)
-        throw std::invalid_argument("RelaxNG");
 }
 
 /**
@@ -56,6 +52,11 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
  */
 TransformationResult relaxngTransformation::relaxngTransformation::apply(xmlDocPtr doc, int /* position */) const {
 
+    // context for this document only, since it keeps the state after a document that did not validate
+    std::unique_ptr<xmlRelaxNGValidCtxt> rngctx(xmlRelaxNGNewValidCtxt(rng.get()));
+    if (rngctx == nullptr)
+        return TransformationResult();
+
     // 0 means it validated
     int n = xmlRelaxNGValidateDoc(rngctx.get(), doc);
     if (n != 0)
diff --git a/src/libsrcml/relaxngTransformation.hpp b/src/libsrcml/relaxngTransformation.hpp
index 2a0d665..a95b36b 100644
--- a/src/libsrcml/relaxngTransformation.hpp
+++ b/src/libsrcml/relaxngTransformation.hpp
@@ -63,7 +63,6 @@ public :
     virtual TransformationResult apply(xmlDocPtr doc, int position) const;
 
 private :
-    std::unique_ptr<xmlRelaxNGValidCtxt> rngctx;
     std::unique_ptr<xmlRelaxNGParserCtxt> relaxng_parser_ctxt;
     std::unique_ptr<xmlRelaxNG> rng;
 };
-- 
2.43.0


From 11058d3f2100eac5037ba8b9f3807f53a13848cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 048/115] fix: transform each unit of an XSLT result on its own

---
 src/libsrcml/Transformation.hpp     |  2 +-
 src/libsrcml/srcml_transform.cpp    |  5 ++---
 src/libsrcml/xsltTransformation.cpp | 13 ++++++++++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/libsrcml/Transformation.hpp b/src/libsrcml/Transformation.hpp
index 5c1385b..1487b4d 100644
--- a/src/libsrcml/Transformation.hpp
+++ b/src/libsrcml/Transformation.hpp
@@ -41,7 +41,7 @@ struct TransformationResult {
     bool boolValue = false;
     std::string stringValue;
     bool unitWrapped = false;
-    std::shared_ptr<xmlDoc> doc;
+    std::vector<std::shared_ptr<xmlDoc>> docs;
 };
 
 /**
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 932e72f..d32cdfa 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -632,9 +632,8 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             if (curresult.nodeset == nullptr && curresult.nodeType == SRCML_RESULT_NONE)
                 continue;
 
-            // result of the transformation may be a new doc
-            if (curresult.doc)
-                docs.push_back(curresult.doc);
+            // result of the transformation may be new docs
+            docs.insert(docs.end(), curresult.docs.begin(), curresult.docs.end());
 
             std::unique_ptr<xmlNodeSet> results(std::move(curresult.nodeset));
             lastresult = std::move(curresult);
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 6479fa5..37863eb 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -165,11 +165,18 @@ TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */
 
     // transformation result is the elements, i.e., units, at the top of the result
     // more than one is not well-formed due to lack of root element, and libxml2 types this as text
+    // each has a doc of its own, since further transformations apply to it alone
     TransformationResult result(xmlXPathNodeSetCreate(0), true);
-    result.doc = res;
     for (auto p = res->children; p; p = p->next) {
-        if (p->type == XML_ELEMENT_NODE)
-            xmlXPathNodeSetAdd(result.nodeset.get(), p);
+
+        if (p->type != XML_ELEMENT_NODE)
+            continue;
+
+        std::shared_ptr<xmlDoc> newdoc(xmlNewDoc(BAD_CAST "1.0"), [](xmlDoc* doc) { xmlFreeDoc(doc); });
+        auto root = xmlDocCopyNode(p, newdoc.get(), 1);
+        xmlDocSetRootElement(newdoc.get(), root);
+        xmlXPathNodeSetAdd(result.nodeset.get(), root);
+        result.docs.push_back(newdoc);
     }
     result.nodeType = result.nodeset->nodeNr ? SRCML_RESULT_UNITS : SRCML_RESULT_STRING;
 
-- 
2.43.0


From 0bccd8353fd586299f1c02c23c490450e4a10bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:04 +0000
Subject: [PATCH 049/115] fix: declare namespaces of parts of a transformed
 unit

---
 src/libsrcml/srcml_transform.cpp | 38 ++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index d32cdfa..0c661d2 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -522,6 +522,34 @@ static void append_escaped(std::string& srcml, const char* text) {
     }
 }
 
+/**
+ * usesNamespace
+ * @param node an element
+ * @param ns a namespace declaration
+ *
+ * @returns If the element, or any part of it, is in the namespace
+ */
+static bool usesNamespace(xmlNodePtr node, xmlNsPtr ns) {
+
+    if (node->type != XML_ELEMENT_NODE)
+        return false;
+
+    if (node->ns == ns)
+        return true;
+
+    for (auto attr = node->properties; attr; attr = attr->next) {
+        if (attr->ns == ns)
+            return true;
+    }
+
+    for (auto child = node->children; child; child = child->next) {
+        if (usesNamespace(child, ns))
+            return true;
+    }
+
+    return false;
+}
+
 static bool usesURI(xmlNode* cur_node, const std::string& URI);
 
 static bool usesURIChildren(xmlNode* a_node, const std::string& URI) {
@@ -801,6 +829,16 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             // also performs a free of resources
             xmlOutputBufferClose(output);
 
+            // namespaces declared outside of the result have to be declared on its unit
+            if (!unitWrapped) {
+                for (auto parent = fullresults->nodeTab[i]->parent; parent && parent->type == XML_ELEMENT_NODE; parent = parent->parent) {
+                    for (auto ns = parent->nsDef; ns; ns = ns->next) {
+                        if (ns->prefix && view.find((const char*) ns->href) == view.end() && usesNamespace(fullresults->nodeTab[i], ns))
+                            nunit->namespaces->push_back({ (const char*) ns->prefix, (const char*) ns->href, NS_USED });
+                    }
+                }
+            }
+
             // update the cpp namespace if actually used
             if (usesURI(fullresults->nodeTab[i], SRCML_CPP_NS_URI)) {
 
-- 
2.43.0


From 3e2b907c717fcbd9043d8365c69af4214a63d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:26 +0000
Subject: [PATCH 050/115] fix: keep the prefix of attributes of units that are
 read

---
 src/libsrcml/srcml_reader_handler.hpp |  2 +-
 src/libsrcml/unit_utilities.cpp       | 14 +++++++++++++-
 src/libsrcml/unit_utilities.hpp       |  3 +++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 2cfe6c0..9610374 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -274,7 +274,7 @@ public :
 
         // collect attributes
         for (int pos = 0; pos < num_attributes; ++pos) {
-            std::string attribute = (const char*) attributes[pos * 5];
+            std::string attribute = attribute_name(attributes[pos * 5], attributes[pos * 5 + 1], attributes[pos * 5 + 2]);
             std::string value = attribute_value(attributes[pos * 5 + 3], attributes[pos * 5 + 4]);
 
             // Note: these are ignore instead of placing in attributes.
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index b0c6c58..f3b465e 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -21,9 +21,21 @@
  */
 
 #include <unit_utilities.hpp>
+#include <srcmlns.hpp>
 #include <libxml/parserInternals.h>
 #include <stack>
 
+// Attribute name from the SAX2 parts, including any prefix, except for the position attributes of a unit
+std::string attribute_name(const xmlChar* localname, const xmlChar* prefix, const xmlChar* uri) {
+
+    std::string name = (const char*) localname;
+
+    if (prefix && !(uri && is_srcml_namespace((const char*) uri, SRCML_POSITION_NS_URI)))
+        name = std::string((const char*) prefix) + ":" + name;
+
+    return name;
+}
+
 // Attribute value from the SAX2 range, where libxml2 leaves an ampersand as a character reference
 std::string attribute_value(const xmlChar* begin, const xmlChar* end) {
 
@@ -42,7 +54,7 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
     // collect attributes
     for (int pos = 0; pos < num_attributes; ++pos) {
 
-        std::string attribute = (const char*) attributes[pos * 5];
+        std::string attribute = attribute_name(attributes[pos * 5], attributes[pos * 5 + 1], attributes[pos * 5 + 2]);
         std::string value = attribute_value(attributes[pos * 5 + 3], attributes[pos * 5 + 4]);
 
         if (attribute == "timestamp")
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 810ab67..d371d40 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -27,6 +27,9 @@
 #include <srcml.h>
 #include <libxml/parser.h>
 
+// Attribute name from the SAX2 parts, including any prefix, except for the position attributes of a unit
+std::string attribute_name(const xmlChar* localname, const xmlChar* prefix, const xmlChar* uri);
+
 // Attribute value from the SAX2 range, where libxml2 leaves an ampersand as a character reference
 std::string attribute_value(const xmlChar* begin, const xmlChar* end);
 
-- 
2.43.0


From b020e6950457ca0d8e53688fe190de1475c75c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 051/115] fix: declare a prefix once in the srcML of a unit

---
 src/libsrcml/sax2_srcsax_handler.cpp | 52 ++++++++++++----------------
 src/libsrcml/sax2_srcsax_handler.hpp |  3 +-
 2 files changed, 24 insertions(+), 31 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index cb73c81..686678a 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -283,39 +283,23 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     state->rootstarttag.assign((const char*) state->base, ctxt->input->cur - state->base);
     state->rootstarttag.append("/>");
 
-    // record namespace string in an extensible list so we can add the per unit
+    // record the namespace declarations in an extensible list so we can add them to each unit
     if (state->collect_unit_body) {
 
-        // precalculate length
-        int ns_length = nb_namespaces * 2;
-        int size = 0;
-        for (int i = 0; i < ns_length; i += 2) {
-
-            // state->rootnsstr += "xmlns";
-            size += 5;
-            if (namespaces[i]) {
-                // state->rootnsstr += ":";
-                // state->rootnsstr += (const char*) namespaces[i];
-                size += 1 + (int) strlen((const char*) namespaces[i]);
-            }
-            // state->rootnsstr += "=\"";
-            // state->rootnsstr += (const char*) namespaces[i + 1];
-            // state->rootnsstr += "\" ";
-            size += 2 + (int) strlen((const char*) namespaces[i + 1]) + 2;
-        }
-
-        state->rootnsstr.reserve(size);
+        for (int i = 0; i < nb_namespaces * 2; i += 2) {
 
-        for (int i = 0; i < ns_length; i += 2) {
+            std::string prefix = namespaces[i] ? (const char*) namespaces[i] : "";
 
-            state->rootnsstr += "xmlns";
-            if (namespaces[i]) {
-                state->rootnsstr += ":";
-                state->rootnsstr += (const char*) namespaces[i];
+            std::string declaration = "xmlns";
+            if (!prefix.empty()) {
+                declaration += ":";
+                declaration += prefix;
             }
-            state->rootnsstr += "=\"";
-            state->rootnsstr += (const char*) namespaces[i + 1];
-            state->rootnsstr += "\" ";
+            declaration += "=\"";
+            declaration += (const char*) namespaces[i + 1];
+            declaration += "\" ";
+
+            state->rootnamespaces.emplace_back(std::move(prefix), std::move(declaration));
         }
     }
 
@@ -461,11 +445,19 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
         if (pos >= 0) {
             // merge the namespaces from the root into this one
-            state->unitsrcml.reserve(ctxt->input->cur - state->base + 1 + (state->context->is_archive ? state->rootnsstr.size() : 0));
             state->unitsrcml.assign((const char*) state->base, pos);
             state->insert_begin = (int) state->unitsrcml.size();
             if (state->context->is_archive) {
-                state->unitsrcml.append(state->rootnsstr);
+                for (const auto& rootnamespace : state->rootnamespaces) {
+
+                    // the unit may declare the prefix itself
+                    bool redeclared = false;
+                    for (int i = 0; i < nb_namespaces * 2; i += 2)
+                        redeclared = redeclared || rootnamespace.first == (namespaces[i] ? (const char*) namespaces[i] : "");
+
+                    if (!redeclared)
+                        state->unitsrcml.append(rootnamespace.second);
+                }
                 state->insert_end = (int) state->unitsrcml.size();
             }
 
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index 07864e9..babab41 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -86,7 +86,8 @@ struct sax2_srcsax_handler {
 
     bool callupper = true;
 
-    std::string rootnsstr;
+    /** namespace declarations of the root, each with its prefix */
+    std::vector<std::pair<std::string, std::string>> rootnamespaces;
     std::string rootstarttag;
 
     int content_begin = 0;
-- 
2.43.0


From 6ad8ee6aa368b4ce4b8f996b7dc9489d31db8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 052/115] fix: write macro lists with the prefix of the srcML
 namespace

---
 src/parser/srcMLOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 833a485..7e282d9 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -428,9 +428,10 @@ void srcMLOutput::setMacroList(std::vector<std::string> & list) {
  */
 void srcMLOutput::outputMacroList() {
 
+    std::string prefix = namespaces[SRC].getPrefix();
     for(std::vector<std::string>::size_type i = 0; i < user_macro_list.size(); i += 2) {
 
-        xmlTextWriterStartElement(xout, BAD_CAST "macro-list");
+        xmlTextWriterStartElementNS(xout, BAD_CAST (!prefix.empty() ? prefix.c_str() : 0), BAD_CAST "macro-list", 0);
         xmlTextWriterWriteAttribute(xout, BAD_CAST "token", BAD_CAST user_macro_list[i].c_str());
         xmlTextWriterWriteAttribute(xout, BAD_CAST "type", BAD_CAST user_macro_list[i + 1].c_str());
         xmlTextWriterEndElement(xout);
-- 
2.43.0


From 27f3be42ba32d072182b6b99cb2a4711cad69007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 053/115] fix: do not consume the end of a directive as part of
 its condition

---
 src/parser/srcMLParser.g | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index ebe71ad..b35148c 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -9633,10 +9633,13 @@ cpp_expression[CALL_TYPE type = NOCALL] { ENTRY_DEBUG } :
 exception
 catch[...] {
 
-        startNewMode(MODE_LOCAL);
-        startElement(SNAME);
-        consume();
-        endMode();
+        // the end of the directive is not part of the expression
+        if (!cpp_check_end()) {
+            startNewMode(MODE_LOCAL);
+            startElement(SNAME);
+            consume();
+            endMode();
+        }
 
 }
 
-- 
2.43.0


From 98b805bc2dd437bf6a1d3e6d0182f918bc51992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 054/115] fix: do not write to the string given to
 srcml_write_string

---
 src/libsrcml/srcml_translator.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 140d977..6565533 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -422,17 +422,15 @@ bool srcml_translator::add_string(const char *content) {
     if (!is_outputting_unit || content == 0)
         return false;
 
-    char* text = (char *)content;
-    for (char * pos = text; *pos; ++pos) {
+    const char* text = content;
+    for (const char* pos = text; *pos; ++pos) {
 
         if (*pos != '"')
             continue;
 
-        *pos = 0;
-        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST text) == -1)
+        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST std::string(text, pos).c_str()) == -1)
             return false;
 
-        *pos = '\"';
         if (xmlTextWriterWriteRaw(out.getWriter(), BAD_CAST "\"") == -1)
             return false;
 
-- 
2.43.0


From 8159ff961ccccc468e1cd2357a2f2e2ce0ee5bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 055/115] fix: do not end the unit with srcml_write_end_element

---
 src/libsrcml/srcml_translator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 6565533..c0ab052 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -355,7 +355,8 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
  */
 bool srcml_translator::add_end_element() {
 
-    if (!is_outputting_unit)
+    // the unit itself is ended by add_end_unit
+    if (!is_outputting_unit || output_unit_depth == 0)
         return false;
 
     --output_unit_depth;
-- 
2.43.0


From 7550ff1c0f2b91c0d8be97b7f4fa48e9d5eb823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 056/115] fix: refuse attributes and namespaces outside of the
 start tag of an element

---
 src/libsrcml/srcml_translator.cpp | 10 ++++++++--
 src/libsrcml/srcml_translator.hpp |  3 +++
 src/libsrcml/srcml_unit.cpp       |  1 +
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index c0ab052..d11c66e 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -336,6 +336,7 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
         return false;
 
     ++output_unit_depth;
+    start_tag_open = true;
 
     const char* used_uri = nullptr;
     if (uri == nullptr || strcmp(SRCML_SRC_NS_URI, uri) != 0) {
@@ -360,6 +361,7 @@ bool srcml_translator::add_end_element() {
         return false;
 
     --output_unit_depth;
+    start_tag_open = false;
 
     return xmlTextWriterEndElement(out.getWriter()) != -1;
 }
@@ -376,7 +378,8 @@ bool srcml_translator::add_end_element() {
  */
 bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
 
-    if (!is_outputting_unit || uri == 0)
+    // only in the start tag of an element, as that of the unit is complete
+    if (!is_outputting_unit || !start_tag_open || uri == 0)
         return false;
 
     std::string name = "xmlns";
@@ -402,7 +405,8 @@ bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
  */
 bool srcml_translator::add_attribute(const char* prefix, const char* name, const char* uri, const char* content) {
 
-    if (!is_outputting_unit || name == 0)
+    // only in the start tag of an element, as that of the unit is complete
+    if (!is_outputting_unit || !start_tag_open || name == 0)
         return false;
 
     return xmlTextWriterWriteAttributeNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST uri, BAD_CAST content) != -1;
@@ -423,6 +427,8 @@ bool srcml_translator::add_string(const char *content) {
     if (!is_outputting_unit || content == 0)
         return false;
 
+    start_tag_open = false;
+
     const char* text = content;
     for (const char* pos = text; *pos; ++pos) {
 
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index 25e3b2f..d9c07e8 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -148,6 +148,9 @@ private:
 public:
     /** track depth for by element writing */
     int output_unit_depth = 0;
+
+    /** the start tag of an element is still open for attributes */
+    bool start_tag_open = false;
 };
 
 #endif
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 0fe898f..ee276a5 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -1046,6 +1046,7 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     unit->unit_translator = 0;
 
     xmlBufferFree(unit->output_buffer);
+    unit->output_buffer = nullptr;
 
     unit->read_body = true;
 
-- 
2.43.0


From 683becc768e291260f857503c5e806eacc839d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 057/115] fix: drop the contents of a unit that is written
 again

---
 src/libsrcml/srcml_unit.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index ee276a5..61a7489 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -955,6 +955,10 @@ int srcml_write_start_unit(struct srcml_unit* unit) {
     // now that everything is ok, transfer the buffer to the unit
     unit->output_buffer = output_buffer.release();
 
+    // any previous contents are no longer those of the unit, and the new ones are complete with the end of the unit
+    unit->read_header = false;
+    unit->read_body = false;
+
     // record start of content (after the unit start tag)
     xmlTextWriterFlush(unit->unit_translator->output_textwriter());
     unit->content_begin = unit->unit_translator->output_buffer()->written + 1;
-- 
2.43.0


From 1c2aa4e52ed7ec80a56235d397d7597681e72a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 058/115] fix: do not declare the cpp namespace for an option
 that was disabled

---
 src/libsrcml/srcml_archive.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 4d31edc..4c6db9c 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -408,6 +408,11 @@ int srcml_archive_disable_option(struct srcml_archive* archive, size_t option) {
     if (archive == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // cpp is no longer declared by the user
+    if (option & SRCML_OPTION_CPP) {
+        archive->options &= ~(OPTION_TYPE) SRCML_OPTION_CPP_DECLARED;
+    }
+
     int modoption = option % (1<<7);
 
     archive->options &= ~modoption;
-- 
2.43.0


From ab8efcd4fbbdd83bf5c6d63091dfd317881c967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 059/115] fix: drop attributes and macros of what was read
 before when an archive is opened

---
 src/libsrcml/srcml_archive.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 4c6db9c..4fb6adb 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1063,6 +1063,10 @@ static int srcml_archive_read_open_internal(struct srcml_archive* archive, std::
     if (!input)
         return SRCML_STATUS_IO_ERROR;
 
+    // attributes and macros are those of the opened srcML, not of what the archive read before
+    archive->attributes.clear();
+    archive->user_macro_list.clear();
+
     try {
 
         archive->reader = new srcml_sax2_reader(archive, std::move(input));
-- 
2.43.0


From e03e63a3bf01e2fabeb89462cf4113fadf77f977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:04 +0000
Subject: [PATCH 060/115] fix: declare used namespaces on the unit also when
 their prefix was changed

---
 src/libsrcml/srcmlns.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcmlns.cpp b/src/libsrcml/srcmlns.cpp
index dd21545..140c4e2 100644
--- a/src/libsrcml/srcmlns.cpp
+++ b/src/libsrcml/srcmlns.cpp
@@ -40,9 +40,12 @@ Namespaces& operator+=(Namespaces& namespaces, const Namespaces& otherns) {
             auto default_it = default_view.find(ns.uri);
             if (default_it == default_view.end() || it->prefix == default_it->prefix) {
 
-                view.modify(it, [ns](Namespace& thisns){ thisns.prefix = ns.prefix; thisns.flags |= ns.flags; });
+                view.modify(it, [ns](Namespace& thisns){ thisns.prefix = ns.prefix; });
             }
 
+            // flags, e.g., that the namespace is used, do not depend on the prefix
+            it->flags |= ns.flags;
+
         } else {
 
             // create a new entry for this URI
-- 
2.43.0


From 4a2446a7044378d6dfc33df2cb5c4607cdb7058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 061/115] fix: keep the language of the extension in the srcML
 of a unit

---
 src/libsrcml/srcml_translator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index d11c66e..9d64d2a 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -279,7 +279,11 @@ bool srcml_translator::add_start_unit(const srcml_unit * unit){
 
     first = false;
 
-    out.startUnit(optional_to_c_str(unit->language, optional_to_c_str(unit->archive->language)),
+    // without a language set, the language found, e.g., from the extension
+    Language derived(unit->derived_language);
+    const char* derived_language = unit->derived_language ? derived.getLanguageString() : 0;
+
+    out.startUnit(optional_to_c_str(unit->language, optional_to_c_str(unit->archive->language, derived_language)),
                   revision,
                   optional_to_c_str(unit->url),
                   optional_to_c_str(unit->filename),
-- 
2.43.0


From 5afe6551ad71a2fbbc84d0eb877786311252d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:37 +0000
Subject: [PATCH 062/115] fix: mark further arguments of a call in the default
 of a parameter

---
 src/parser/srcMLParser.g | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index b35148c..2f1e4a8 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -5134,7 +5134,17 @@ complete_default_parameter[] { CompleteElement element(this); int count_paren =
         { perform_call_check(type, isempty, call_count, -1) && type == CALL }? 
         set_int[count_paren, isempty ? count_paren : count_paren + 1] expression |
 
-        expression | comma
+        expression |
+
+        comma
+        {
+            // comma in the argument list of a call, so start the next argument
+            if (inMode(MODE_ARGUMENT | MODE_LIST)) {
+                startNewMode(MODE_ARGUMENT | MODE_EXPRESSION | MODE_EXPECT);
+
+                startElement(SARGUMENT);
+            }
+        }
 
         ))*
 ;
-- 
2.43.0


From 7750979a2d16ebafd5f7eba7c1c104f06ee4d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 063/115] fix: count the parentheses of nested calls in the
 default of a parameter

---
 src/parser/srcMLParser.g | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 2f1e4a8..ce1dcd2 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -5114,6 +5114,29 @@ complete_arguments[] { CompleteElement element(this); int count_paren = 1; CALL_
 ;
 
 // Full, complete expression matched all at once (no stream).
+// does the argument list of the call that is next start with a call or a left parenthesis
+nested_first_argument[] returns [bool isnested] { isnested = false;
+
+    CALL_TYPE type = NOCALL;
+    bool isempty = false;
+    int call_count = 0;
+
+    int start = mark();
+    inputState->guessing++;
+
+    try {
+
+        function_identifier();
+        match(LPAREN);
+        isnested = LA(1) == LPAREN || (perform_call_check(type, isempty, call_count, -1) && type == CALL);
+
+    } catch (...) {}
+
+    inputState->guessing--;
+    rewind(start);
+
+ENTRY_DEBUG } :;
+
 // May be better version of complete_expression
 complete_default_parameter[] { CompleteElement element(this); int count_paren = 0; CALL_TYPE type = NOCALL; 
     bool isempty = false; int call_count = 0; ENTRY_DEBUG } : 
@@ -5132,7 +5155,18 @@ complete_default_parameter[] { CompleteElement element(this); int count_paren =
         { LA(1) == RPAREN && !inputState->guessing}? expression set_int[count_paren, count_paren - 1] |
 
         { perform_call_check(type, isempty, call_count, -1) && type == CALL }? 
-        set_int[count_paren, isempty ? count_paren : count_paren + 1] expression |
+        set_int[count_paren, isempty ? count_paren : count_paren + 1]
+        (
+            // first argument is a call or in parentheses, so count its parentheses here
+            { !isempty && nested_first_argument() }? expression_process (call[call_count] | keyword_calls)
+            {
+                startNewMode(MODE_ARGUMENT | MODE_EXPRESSION | MODE_EXPECT);
+
+                startElement(SARGUMENT);
+            } |
+
+            expression
+        ) |
 
         expression |
 
-- 
2.43.0


From 6756235233cc97aa837f77c13275a56c4a497077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:25 +0000
Subject: [PATCH 064/115] fix: forget the names of nested classes when they end

---
 src/parser/srcMLParser.g | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index ce1dcd2..ca2a7ed 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -713,7 +713,8 @@ public:
     bool is_qmark = false;
     bool notdestructor = false;
     bool operatorname = false;
-    std::stack<std::string> class_namestack;
+    // names of the classes, with the number of modes when their name was found
+    std::stack<std::pair<int, std::string>> class_namestack;
 
     bool skip_ternary = false;
 
@@ -3295,7 +3296,11 @@ class_header_base[] { bool insuper = false; ENTRY_DEBUG } :
     {
         setMode(MODE_CLASS_NAME);
 
-        class_namestack.push(LT(1)->getText());
+        // classes at this level or deeper have ended
+        while (!class_namestack.empty() && class_namestack.top().first >= size())
+            class_namestack.pop();
+
+        class_namestack.push({ size(), LT(1)->getText() });
     }
         // suppress ()* warning
         ({ LA(1) != FINAL }? compound_name | keyword_name)
@@ -3492,14 +3497,8 @@ rcurly[] { ENTRY_DEBUG } :
             // end any elements inside of the block
             // basically, endDownToMode(MODE_TOP), but checking for class ending
             if (inTransparentMode(MODE_TOP)) {
-                while (size() > 1 && !inMode(MODE_TOP)) {
-                    if (inMode(MODE_CLASS))
-                        if (!class_namestack.empty()) {
-                            class_namestack.pop();
-                        }
-
+                while (size() > 1 && !inMode(MODE_TOP))
                     endMode();
-                }
             }
 
             // flush any whitespace tokens since sections should
@@ -4091,6 +4090,12 @@ pattern_check[STMT_TYPE& type, int& token, int& type_count, int& after_token, bo
 
     isdecl = true;
 
+    // classes nested in the current class have ended
+    if (inMode(MODE_ACCESS_REGION)) {
+        while (!class_namestack.empty() && class_namestack.top().first > size())
+            class_namestack.pop();
+    }
+
     int specifier_count;
     int attribute_count;
     int template_count;
@@ -4496,7 +4501,7 @@ pattern_check_core[int& token,      /* second token, after name (always returned
 
                  (
                     // inside of a C++ class definition must match class name
-                    (inMode(MODE_ACCESS_REGION) && !class_namestack.empty() && class_namestack.top() == namestack[0]) ||
+                    (inMode(MODE_ACCESS_REGION) && !class_namestack.empty() && class_namestack.top().second == namestack[0]) ||
 
                     (inTransparentMode(MODE_ACCESS_REGION) && inMode(MODE_TEMPLATE)) ||
 
-- 
2.43.0


From 1279e905f8a248232605eff9cfa1ef66ca97343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:39 +0000
Subject: [PATCH 065/115] fix: a call of a member with the name of its object
 is no constructor in C#

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index ca2a7ed..325aae1 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -4512,7 +4512,7 @@ pattern_check_core[int& token,      /* second token, after name (always returned
                     (specifier_count > 0 && (inLanguage(LANGUAGE_JAVA_FAMILY) || inLanguage(LANGUAGE_CSHARP))) ||
 
                     // outside of a class definition in C++, but with properly prefixed name
-                    (inLanguage(LANGUAGE_CXX_FAMILY) && namestack[0] != "" && namestack[0] == namestack[1])
+                    (inLanguage(LANGUAGE_CXX) && namestack[0] != "" && namestack[0] == namestack[1])
                 )
         ]
 
-- 
2.43.0


From 7e2056d50e1899da9f6e29dfbe77e217c5778675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:57 +0000
Subject: [PATCH 066/115] fix: declarations in a lambda function that is an
 argument

---
 src/parser/srcMLParser.g | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 325aae1..dc345b0 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -777,6 +777,11 @@ public:
 
     void endAllModes();
 
+    // in an argument, but not in a block (e.g., of a lambda function) inside of that argument
+    bool inArgument() const {
+        return inTransparentMode(MODE_ARGUMENT) && (getFirstMode(MODE_ARGUMENT | MODE_BLOCK) & MODE_ARGUMENT) != 0;
+    }
+
 
     virtual void consume() {
 
@@ -1390,7 +1395,7 @@ function_type[int type_count] { bool is_compound = false; ENTRY_DEBUG } :
         { 
 
             decTypeCount();
-            if (inTransparentMode(MODE_ARGUMENT) && inLanguage(LANGUAGE_CXX))
+            if (inArgument() && inLanguage(LANGUAGE_CXX))
                 return;
         }
 
@@ -4604,7 +4609,7 @@ marker[] { CompleteElement element(this); startNewMode(MODE_LOCAL); startElement
 update_typecount[srcMLState::MODE_TYPE mode] {} :
         {
             decTypeCount();
-            if (inTransparentMode(MODE_ARGUMENT) && inLanguage(LANGUAGE_CXX))
+            if (inArgument() && inLanguage(LANGUAGE_CXX))
                 return;
 
             if (getTypeCount() <= 0) {
@@ -7307,7 +7312,7 @@ variable_declaration_type[int type_count] {  bool is_compound = false; ENTRY_DEB
     {
         if (type_count == 0) {
 
-            if (inTransparentMode(MODE_ARGUMENT) && inLanguage(LANGUAGE_CXX))
+            if (inArgument() && inLanguage(LANGUAGE_CXX))
                 return;
 
             setMode(MODE_VARIABLE_NAME | MODE_INIT);
-- 
2.43.0


From d33595582a572ef39651f31ed7c2f1754431698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 067/115] fix: ternary in the body of a lambda expression

---
 src/parser/srcMLParser.g | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index dc345b0..92e8b27 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -777,6 +777,11 @@ public:
 
     void endAllModes();
 
+    // operator of a lambda expression, whose body may be a ternary
+    bool is_lambda_arrow() {
+        return LA(1) == LAMBDA || (LA(1) == TRETURN && inLanguage(LANGUAGE_JAVA));
+    }
+
     // in an argument, but not in a block (e.g., of a lambda function) inside of that argument
     bool inArgument() const {
         return inTransparentMode(MODE_ARGUMENT) && (getFirstMode(MODE_ARGUMENT | MODE_BLOCK) & MODE_ARGUMENT) != 0;
@@ -2069,11 +2074,11 @@ ternary_check[] { ENTRY_DEBUG } :
 
 
     // ends are catch alls ok if overlap
-    ({ LA(1) != 1 }? (options { generateAmbigWarnings = false; } : {identifier_list_tokens_set.member(LA(1)) }? compound_name_inner[false] | paren_pair | bracket_pair (options { greedy = true; } : paren_pair | curly_pair)*
+    ({ LA(1) != 1 && !is_lambda_arrow() }? (options { generateAmbigWarnings = false; } : {identifier_list_tokens_set.member(LA(1)) }? compound_name_inner[false] | paren_pair | bracket_pair (options { greedy = true; } : paren_pair | curly_pair)*
          | ~(QMARK | TERMINATE | LCURLY | COLON | RPAREN | COMMA | RBRACKET | RCURLY | EQUAL | ASSIGNMENT)))
 
     // ends are catch alls ok if overlap
-    ({ LA(1) != 1 }? (options { generateAmbigWarnings = false; } : {identifier_list_tokens_set.member(LA(1)) }? compound_name_inner[false] | paren_pair | bracket_pair (options { greedy = true; } : paren_pair | curly_pair)*
+    ({ LA(1) != 1 && !is_lambda_arrow() }? (options { generateAmbigWarnings = false; } : {identifier_list_tokens_set.member(LA(1)) }? compound_name_inner[false] | paren_pair | bracket_pair (options { greedy = true; } : paren_pair | curly_pair)*
          | ~(QMARK | TERMINATE | LCURLY  | COLON | RPAREN | COMMA | RBRACKET | RCURLY | EQUAL | ASSIGNMENT)))* 
 ;
 
-- 
2.43.0


From 55da6700b3d0adaef520c2e57ae1635c75ae5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 068/115] fix: complement operator at the start of the
 condition of a ternary

---
 src/parser/srcMLParser.g | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 92e8b27..0f525d5 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -7979,7 +7979,9 @@ expression_part[CALL_TYPE type = NOCALL, int call_count = 1] { bool flag; bool i
         // looks like general operators and variable identifier can match same thing
         (options { generateAmbigWarnings = false; } : general_operators
         {
-            if (inLanguage(LANGUAGE_CXX_FAMILY) && LA(1) == DESTOP)
+            // operator is part of the condition when a ternary starts here
+            if (inLanguage(LANGUAGE_CXX_FAMILY) && LA(1) == DESTOP
+                && (skip_ternary || inMode(MODE_TERNARY_CONDITION) || !perform_ternary_check()))
                 general_operators();
         }
         | qmark | /* newop | */ period | member_pointer | member_pointer_dereference | dot_dereference |
-- 
2.43.0


From f208f9d01a90b0211923f6658b27621b604b58fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:49 +0000
Subject: [PATCH 069/115] fix: lambda functions with parameters or blocks in
 conditions

---
 src/parser/srcMLParser.g | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 0f525d5..9550e4b 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -782,6 +782,11 @@ public:
         return LA(1) == LAMBDA || (LA(1) == TRETURN && inLanguage(LANGUAGE_JAVA));
     }
 
+    // in a condition, but not in a parameter or a block (e.g., of a lambda function) inside of that condition
+    bool inCondition() const {
+        return inTransparentMode(MODE_CONDITION) && (getFirstMode(MODE_CONDITION | MODE_PARAMETER | MODE_BLOCK) & MODE_CONDITION) != 0;
+    }
+
     // in an argument, but not in a block (e.g., of a lambda function) inside of that argument
     bool inArgument() const {
         return inTransparentMode(MODE_ARGUMENT) && (getFirstMode(MODE_ARGUMENT | MODE_BLOCK) & MODE_ARGUMENT) != 0;
@@ -3383,7 +3388,7 @@ lcurly[bool content = true] { ENTRY_DEBUG } :
                 content = false;
 
             // special end for conditions
-            if (inTransparentMode(MODE_CONDITION) && !inMode(MODE_ANONYMOUS)) {
+            if (inCondition() && !inMode(MODE_ANONYMOUS)) {
                 endDownToMode(MODE_CONDITION);
                 endMode(MODE_CONDITION);
             }
@@ -4131,7 +4136,7 @@ pattern_check[STMT_TYPE& type, int& token, int& type_count, int& after_token, bo
 
     }
 
-    if (type == VARIABLE && inTransparentMode(MODE_CONDITION) && LA(1) != EQUAL)
+    if (type == VARIABLE && inCondition() && LA(1) != EQUAL)
         type = NONE;
 
     if (type == NONE && (sawtemplate || (sawcontextual && type_count > 0))
-- 
2.43.0


From e4f0cbe429b1f772220cb8e8469f860b80dd3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 070/115] fix: end the body of a lambda expression before the
 comma or right parenthesis after it

---
 src/parser/srcMLParser.g | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 9550e4b..2e882e9 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -782,6 +782,12 @@ public:
         return LA(1) == LAMBDA || (LA(1) == TRETURN && inLanguage(LANGUAGE_JAVA));
     }
 
+    // comma or right parenthesis that ends the expression in the body of a lambda expression
+    bool lambda_body_end() {
+        return inputState->guessing == 0 && (LA(1) == RPAREN || LA(1) == COMMA)
+            && (getFirstMode(MODE_ANONYMOUS | MODE_INTERNAL_END_PAREN) & MODE_ANONYMOUS) != 0;
+    }
+
     // in a condition, but not in a parameter or a block (e.g., of a lambda function) inside of that condition
     bool inCondition() const {
         return inTransparentMode(MODE_CONDITION) && (getFirstMode(MODE_CONDITION | MODE_PARAMETER | MODE_BLOCK) & MODE_CONDITION) != 0;
@@ -1487,7 +1493,12 @@ lambda_expression_csharp[] { bool first = true; ENTRY_DEBUG } :
         }
 
         (options { greedy = true; } : specifier)*
-        (parameter_list | lambda_single_parameter) lambda_csharp (options { greedy = true; } : { LA(1) != LCURLY && first }? complete_expression set_bool[first, false])*
+        (parameter_list | lambda_single_parameter) lambda_csharp (options { greedy = true; } : { LA(1) != LCURLY && first }? complete_expression[true] set_bool[first, false])*
+        {
+            // lambda ends with the expression that is its body
+            if (!first && inMode(MODE_ANONYMOUS))
+                endMode(MODE_ANONYMOUS);
+        }
 ;
 
 // handle a C++11 lambda expression
@@ -1618,7 +1629,12 @@ lambda_expression_java[] { bool first = true; ENTRY_DEBUG } :
 
         }
 
-        (parameter_list | lambda_single_parameter) lambda_java (options { greedy = true; } : { LA(1) != LCURLY && first }? complete_expression set_bool[first, false])*
+        (parameter_list | lambda_single_parameter) lambda_java (options { greedy = true; } : { LA(1) != LCURLY && first }? complete_expression[true] set_bool[first, false])*
+        {
+            // lambda ends with the expression that is its body
+            if (!first && inMode(MODE_ANONYMOUS))
+                endMode(MODE_ANONYMOUS);
+        }
 ;
 
 lambda_single_parameter { CompleteElement element(this); ENTRY_DEBUG } :
@@ -5253,7 +5269,7 @@ complete_objective_c_call[] { CompleteElement element(this); int bracket_count =
 ;
 
 // match a complete expression no stream
-complete_expression[] { CompleteElement element(this); ENTRY_DEBUG } :
+complete_expression[bool inlambda = false] { CompleteElement element(this); ENTRY_DEBUG } :
         {
             // start a mode to end at right bracket with expressions inside
             startNewMode(MODE_TOP | MODE_EXPECT | MODE_EXPRESSION);
@@ -5262,19 +5278,20 @@ complete_expression[] { CompleteElement element(this); ENTRY_DEBUG } :
         (options { greedy = true; } :
 
             // commas as in a list
-            { (inTransparentMode(MODE_END_ONLY_AT_RPAREN) && (getFirstMode(MODE_END_ONLY_AT_RPAREN | MODE_END_AT_COMMA)& MODE_END_AT_COMMA) == 0) || !inTransparentMode(MODE_END_AT_COMMA) }?
+            { ((inTransparentMode(MODE_END_ONLY_AT_RPAREN) && (getFirstMode(MODE_END_ONLY_AT_RPAREN | MODE_END_AT_COMMA)& MODE_END_AT_COMMA) == 0) || !inTransparentMode(MODE_END_AT_COMMA))
+                && (!inlambda || !lambda_body_end()) }?
             comma |
 
             // right parentheses, unless we are in a pair of parentheses in an expression
-            { !inTransparentMode(MODE_INTERNAL_END_PAREN) }? rparen[false] |
+            { !inTransparentMode(MODE_INTERNAL_END_PAREN) && (!inlambda || !lambda_body_end()) }? rparen[false] |
 
             { inLanguage(LANGUAGE_OBJECTIVE_C) && LA(1) == LBRACKET }? complete_objective_c_call |
 
             // argument mode (as part of call)
-            { inMode(MODE_ARGUMENT) }? argument |
+            { inMode(MODE_ARGUMENT) && (!inlambda || !lambda_body_end()) }? argument |
 
             // expression with right parentheses if a previous match is in one
-            { LA(1) != RPAREN || inTransparentMode(MODE_INTERNAL_END_PAREN) }? expression |
+            { (LA(1) != RPAREN || inTransparentMode(MODE_INTERNAL_END_PAREN)) && (!inlambda || !lambda_body_end()) }? expression |
 
             colon_marked
 
-- 
2.43.0


From 1528d664c53fc6059b90faa0d42bd90c66a514ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 071/115] fix: outer srcML of a unit with values that look like
 attributes, and any order and quotes of attributes

---
 src/libsrcml/sax2_srcsax_handler.cpp | 14 ++++--
 src/libsrcml/srcml_unit.cpp          | 57 +++++++++++------------
 src/libsrcml/start_tag.hpp           | 68 ++++++++++++++++++++++++++++
 3 files changed, 103 insertions(+), 36 deletions(-)
 create mode 100644 src/libsrcml/start_tag.hpp

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 686678a..647a987 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -22,6 +22,7 @@
 
 #include <sax2_srcsax_handler.hpp>
 #include <srcmlns.hpp>
+#include <start_tag.hpp>
 #include <string>
 #include <algorithm>
 #include <cstring>
@@ -464,11 +465,14 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
             state->unitsrcml.append((const char*) state->base + pos, ctxt->input->cur - state->base + 1 - pos);
 
             if (!state->context->is_archive) {
-                std::string& s = state->unitsrcml;
-                auto pos = s.find("xmlns");
-                auto firstquote = s.find("\"", pos + 1);
-                auto secondquote = s.find("\"", firstquote + 1);
-                state->insert_end = (int) secondquote + 2;
+                const std::string& s = state->unitsrcml;
+                auto declaration = find_attribute(s, is_namespace_declaration);
+                state->insert_begin = (int) declaration.first;
+                state->insert_end = (int) declaration.second;
+
+                // include the white space between attributes
+                if (declaration.second && s[declaration.second] != '/' && s[declaration.second] != '>')
+                    ++state->insert_end;
             }
         }
 
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 61a7489..37e1ba5 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -25,6 +25,7 @@
 #include <UTF8CharBuffer.hpp>
 #include <memory>
 #include <libxml2_utilities.hpp>
+#include <start_tag.hpp>
 #include <cstring>
 #include <fcntl.h>
 #include <srcml_macros.hpp>
@@ -383,35 +384,27 @@ const char* srcml_unit_get_srcml_outer(struct srcml_unit* unit) {
     // construct the fragment from the full srcML, excluding the inserted root tag stuff (including namespaces)
     if (!unit->srcml_fragment) {
 
-        // find end of unit tag, e.g., end of "<unit ...>" or "<src:unit ...>"
-        std::string prefix = "";
-        auto pos = unit->srcml.find(">");
-
-        int insert_attr_begin = 0;
-        int insert_attr_end = 0;
-
-        if (pos != std::string::npos) {
-            // find url attribute
-            std::string s(unit->srcml, 0, pos);
-            auto pos2 = s.find(" url=");
-            if (pos2 != std::string::npos) {
-                insert_attr_begin = (int) pos2;
-                pos2 += 6;
-                auto pos3 = s.find("\"", pos2);
-                pos3 += 1;
-                insert_attr_end = (int) pos3;
-            }
-        }
+        // the url is an attribute of the archive, including the white space in front of it
+        auto url = find_attribute(unit->srcml, [](const std::string& name) { return name == "url"; });
+        if (url.second && (int) url.first > unit->insert_end)
+            --url.first;
 
         unit->srcml_fragment = "";
         unit->srcml_fragment->reserve(rawsize);
-        unit->srcml_fragment->assign(unit->srcml, 0, unit->insert_begin);
-        if (insert_attr_begin == 0) {
-            unit->srcml_fragment->append(unit->srcml, unit->insert_end, unit->srcml.size() - unit->insert_end);
-        } else {
-            unit->srcml_fragment->append(unit->srcml, unit->insert_end, insert_attr_begin - unit->insert_end);
-            unit->srcml_fragment->append(unit->srcml, insert_attr_end, unit->srcml.size() - insert_attr_end);
+
+        // copy all except for the given ranges, which are in any order
+        auto first = std::make_pair((std::string::size_type) unit->insert_begin, (std::string::size_type) unit->insert_end);
+        auto second = url;
+        if (second.first < first.first)
+            std::swap(first, second);
+        std::string::size_type pos = 0;
+        for (const auto& range : { first, second }) {
+            if (range.second <= pos)
+                continue;
+            unit->srcml_fragment->append(unit->srcml, pos, range.first - pos);
+            pos = range.second;
         }
+        unit->srcml_fragment->append(unit->srcml, pos, std::string::npos);
     }
 
     // if srcdiff versioned, then use that
@@ -964,12 +957,14 @@ int srcml_write_start_unit(struct srcml_unit* unit) {
     unit->content_begin = unit->unit_translator->output_buffer()->written + 1;
 
     // record end of content (after xmlns for srcML)
-    const char* s = (const char*) xmlBufferContent(unit->output_buffer);
-    auto pos = strstr(s, "xmlns") - s;
-    unit->insert_begin = (int) pos;
-    auto firstquote = strchr(s + pos + 1, '\"') - s;
-    auto secondquote = strchr(s + firstquote + 1, '\"') - s;
-    unit->insert_end = (int) secondquote + 2;
+    std::string s((const char*) xmlBufferContent(unit->output_buffer));
+    auto declaration = find_attribute(s, is_namespace_declaration);
+    unit->insert_begin = (int) declaration.first;
+    unit->insert_end = (int) declaration.second;
+
+    // include the white space between attributes
+    if (declaration.second < s.size() && s[declaration.second] == ' ')
+        ++unit->insert_end;
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/start_tag.hpp b/src/libsrcml/start_tag.hpp
new file mode 100644
index 0000000..8792036
--- /dev/null
+++ b/src/libsrcml/start_tag.hpp
@@ -0,0 +1,68 @@
+// SPDX-License-Identifier: GPL-3.0-only
+/**
+ * @file start_tag.hpp
+ *
+ * @copyright Copyright (C) 2024 srcML, LLC. (www.srcML.org)
+ *
+ * Find attributes in the text of a well-formed start tag
+ */
+
+#ifndef INCLUDED_START_TAG_HPP
+#define INCLUDED_START_TAG_HPP
+
+#include <string>
+#include <utility>
+
+/**
+ * find_attribute
+ * @param s text that begins with a start tag
+ * @param matches predicate on the (qualified) name of an attribute
+ *
+ * Find the first attribute (including namespace declarations) of the start tag
+ * whose name matches. Values may contain anything, including what looks like
+ * an attribute or the end of a tag.
+ *
+ * @returns the range of the attribute, from its name through its closing quote, or an empty range
+ */
+template<class Predicate>
+std::pair<std::string::size_type, std::string::size_type> find_attribute(const std::string& s, Predicate matches) {
+
+    const char* const whitespace = " \t\r\n";
+
+    // past the name of the element
+    auto pos = s.find_first_of(" \t\r\n/>");
+
+    while (pos != std::string::npos) {
+
+        // start of the name of an attribute, or the end of the tag
+        auto begin = s.find_first_not_of(whitespace, pos);
+        if (begin == std::string::npos || s[begin] == '/' || s[begin] == '>')
+            break;
+
+        auto name_end = s.find_first_of(" \t\r\n=", begin);
+        if (name_end == std::string::npos)
+            break;
+
+        auto quote = s.find_first_of("\"'", name_end);
+        if (quote == std::string::npos)
+            break;
+
+        auto end = s.find(s[quote], quote + 1);
+        if (end == std::string::npos)
+            break;
+
+        pos = end + 1;
+
+        if (matches(s.substr(begin, name_end - begin)))
+            return { begin, pos };
+    }
+
+    return { 0, 0 };
+}
+
+// is the attribute a namespace declaration
+inline bool is_namespace_declaration(const std::string& name) {
+    return name == "xmlns" || name.compare(0, 6, "xmlns:") == 0;
+}
+
+#endif
-- 
2.43.0


From cf0a7f0f414f69c311f645d479c50041ac9fd65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 072/115] fix: declare namespaces inside of the start tag of a
 unit without attributes

---
 src/libsrcml/sax2_srcsax_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 647a987..ba640cd 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -445,8 +445,14 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
         int pos = (int) (1 + strlen((const char*) localname) + (prefix ? strlen((const char*) prefix) + 1 : 0) + 1);
 
         if (pos >= 0) {
+            // the name may be all of the start tag
+            if (state->base[pos - 1] == '>' || state->base[pos - 1] == '/')
+                --pos;
+
             // merge the namespaces from the root into this one
             state->unitsrcml.assign((const char*) state->base, pos);
+            if (state->base[pos] == '>' || state->base[pos] == '/')
+                state->unitsrcml += ' ';
             state->insert_begin = (int) state->unitsrcml.size();
             if (state->context->is_archive) {
                 for (const auto& rootnamespace : state->rootnamespaces) {
-- 
2.43.0


From d03a77042189f48cccb669074ee7e172b6df13b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 073/115] fix: srcml() of an input without a unit is an error

---
 src/libsrcml/libsrcml.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index 945d745..b7638f5 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -241,8 +241,10 @@ int srcml(const char* input_filename, const char* output_filename) {
             return status;
 
         std::unique_ptr<srcml_unit> unit(srcml_archive_read_unit(archive.get()));
-        if (!unit)
-            return status;
+        if (!unit) {
+            global_archive.error_string = "Unable to read srcML unit";
+            return SRCML_STATUS_INVALID_INPUT;
+        }
 
         status = srcml_unit_unparse_filename(unit.get(), output_filename);
         if (status != SRCML_STATUS_OK)
-- 
2.43.0


From cba3b8207f7a1b8dde6b60752e97f86ae8dc8cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 074/115] fix: srcml_set_eol() applies to the source written by
 srcml()

---
 src/libsrcml/libsrcml.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index b7638f5..9491256 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -246,6 +246,11 @@ int srcml(const char* input_filename, const char* output_filename) {
             return SRCML_STATUS_INVALID_INPUT;
         }
 
+        // line ends possibly set by convenience functions
+        status = srcml_unit_set_eol(unit.get(), srcml_unit_get_eol(&global_unit));
+        if (status != SRCML_STATUS_OK)
+            return status;
+
         status = srcml_unit_unparse_filename(unit.get(), output_filename);
         if (status != SRCML_STATUS_OK)
             return status;
-- 
2.43.0


From 83d20bb6f6436850ba6f00e6593a05e71950bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 075/115] fix: do not read in front of a short filename in
 srcml()

---
 src/libsrcml/libsrcml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index 9491256..64ade1b 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -217,7 +217,7 @@ int srcml(const char* input_filename, const char* output_filename) {
         size_t len = strlen(input_filename);
         if (!((len > 4 && tolower(input_filename[len - 1]) == 'l' && tolower(input_filename[len - 2]) == 'm'
             && ((tolower(input_filename[len - 3]) == 'x' && input_filename[len - 4] == '.')
-             || (tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
+             || (len > 5 && tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
            || (global_archive.language && strcmp(global_archive.language->c_str(), "xml") == 0))) {
 
             if (global_archive.language) {
-- 
2.43.0


From c8e70d87afdb27b52805f4363ad62a185cad25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 076/115] fix: read '>' in text directly after a tag

---
 src/libsrcml/sax2_srcsax_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index ba640cd..dfe2d92 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -798,7 +798,7 @@ void characters_unit(void* ctx, const xmlChar* ch, int len) {
     bool discarded = state->base < ctxt->input->base;
 
     // end previous start element
-    if (discarded ? state->starttagopen : state->base[0] == '>') {
+    if (state->starttagopen) {
         state->unitsrcml.append(1, '>');
         state->base += 1;
     }
-- 
2.43.0


From 1378df800e1f6d836ffe1fba4d9b40619e5cbf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 077/115] fix: read an escape element without attributes

---
 src/libsrcml/sax2_srcsax_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index dfe2d92..3441889 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -614,7 +614,7 @@ void end_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, const
  */
 void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix */, const xmlChar* /* URI */,
                     int /* nb_namespaces */, const xmlChar** /* namespaces */,
-                    int /* nb_attributes */, int /* nb_defaulted */, const xmlChar** attributes) {
+                    int nb_attributes, int /* nb_defaulted */, const xmlChar** attributes) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -648,7 +648,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == state->escape_entry) {
+        if (localname == state->escape_entry && nb_attributes > 0) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
-- 
2.43.0


From a5c72c6c0fa54925bb6a4b397208cb4441461664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 078/115] fix: read a document with a malformed XML declaration
 without null pointer arithmetic

---
 src/libsrcml/sax2_srcsax_handler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 3441889..30b7adb 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -87,6 +87,14 @@ static void update_ctx(void* ctx) {
     if (state == nullptr)
         return;
 
+    // nothing seen yet, e.g., the XML declaration is malformed
+    if (state->base == nullptr) {
+        state->base = ctxt->input->base;
+        state->prevconsumed = ctxt->input->consumed;
+        state->prevbase = ctxt->input->base;
+        return;
+    }
+
     if (state->prevconsumed != ctxt->input->consumed) {
         state->base -= ctxt->input->consumed - state->prevconsumed;
     }
-- 
2.43.0


From 622d29ba1061c2ebcc505f161ae04f430cd3aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 079/115] fix: text between the units of an archive is not part
 of the next start tag

---
 src/libsrcml/sax2_srcsax_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 30b7adb..287f55d 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -760,8 +760,8 @@ void characters_root(void* ctx, const xmlChar* ch, int len) {
 
     SRCSAX_DEBUG_START_CHARS(ch, len);
 
-    // skip over
-    state->base = ctxt->input->cur;
+    // skip over, where the text may not be consumed yet
+    state->base = ch == ctxt->input->cur ? ch + len : ctxt->input->cur;
 
     SRCSAX_DEBUG_END_CHARS(ch, len);
 }
-- 
2.43.0


From cfaa668b1e39e77ff16c6f817ee8d5ec8845f4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 080/115] fix: a unit element nested in a unit does not end it

---
 src/libsrcml/sax2_srcsax_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 287f55d..6844faf 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -722,7 +722,7 @@ void end_element(void* ctx, const xmlChar* localname, const xmlChar* prefix, con
 
     // At this point, we have the end of a unit
 
-    if (ctxt->nameNr == 2 || !state->context->is_archive) {
+    if (ctxt->nameNr == (state->context->is_archive ? 2 : 1)) {
 
         end_unit(ctx, localname, prefix, URI);
     }
-- 
2.43.0


From 748a008e37a4577d83f4c0602d975501fe18c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 081/115] fix: read documents with a document type declaration

---
 src/libsrcml/sax2_srcsax_handler.cpp | 34 ++++++++++++++++++++++++++++
 src/libsrcml/sax2_srcsax_handler.hpp | 11 +++++++++
 2 files changed, 45 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 6844faf..1ec2c39 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -73,6 +73,8 @@ xmlSAXHandler srcsax_sax2_factory() {
     sax.cdataBlock = &cdata_block;
     sax.processingInstruction = &processing_instruction;
 
+    sax.externalSubset = &document_type;
+
     return sax;
 }
 
@@ -945,3 +947,35 @@ void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* dat
 
     SRCSAX_DEBUG_END("");
 }
+
+/**
+ * document_type
+ * @param ctx an xmlParserCtxtPtr
+ * @param name the name of the root element
+ * @param externalID the public identifier
+ * @param systemID the system identifier
+ *
+ * Called at the end of a document type declaration, including the internal subset.
+ * The declaration is not part of the root start tag.
+ */
+void document_type(void* ctx, const xmlChar* /* name */, const xmlChar* /* externalID */, const xmlChar* /* systemID */) {
+
+    auto ctxt = (xmlParserCtxtPtr) ctx;
+    if (ctxt == nullptr)
+        return;
+    auto state = (sax2_srcsax_handler*) ctxt->_private;
+    if (state == nullptr)
+        return;
+
+    update_ctx(ctx);
+
+    state->base = ctxt->input->cur;
+
+    // srcML does not have entities, whose replacement text is not part of the input
+    if (ctxt->myDoc && ctxt->myDoc->intSubset) {
+        auto subset = ctxt->myDoc->intSubset;
+        xmlUnlinkNode((xmlNodePtr) subset);
+        ctxt->myDoc->intSubset = nullptr;
+        xmlFreeDtd(subset);
+    }
+}
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index babab41..76317d8 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -296,4 +296,15 @@ void cdata_block(void* ctx, const xmlChar* value, int len);
  */
 void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* data);
 
+/**
+ * document_type
+ * @param ctx an xmlParserCtxtPtr
+ * @param name the name of the root element
+ * @param externalID the public identifier
+ * @param systemID the system identifier
+ *
+ * Called at the end of a document type declaration.
+ */
+void document_type(void* ctx, const xmlChar* name, const xmlChar* externalID, const xmlChar* systemID);
+
 #endif
-- 
2.43.0


From 819da07e43d2de43d3cb0dc1a918c31558f8cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 082/115] fix: namespaces for XPath are those of the root
 element

---
 src/libsrcml/xpathTransformation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index 234e9c4..5a2b4e6 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -282,7 +282,8 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     }
 
     // register prefixes from the doc
-    for (auto p = doc->children->nsDef; p; p = p->next) {
+    auto root = xmlDocGetRootElement(doc);
+    for (auto p = root ? root->nsDef : nullptr; p; p = p->next) {
 
         xmlXPathRegisterNs(context.get(), p->prefix, p->href);
     }
-- 
2.43.0


From ca2b11fd4fba5ab6e0b87bbdc9b22561e8772112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 083/115] fix: the processing instruction of an archive is read

---
 src/libsrcml/cppCallbackAdapter.hpp  |  1 +
 src/libsrcml/sax2_srcsax_handler.cpp |  4 ++++
 src/libsrcml/srcsax_handler.hpp      | 10 ++++++++++
 3 files changed, 15 insertions(+)

diff --git a/src/libsrcml/cppCallbackAdapter.hpp b/src/libsrcml/cppCallbackAdapter.hpp
index 59ca6d1..3de0894 100644
--- a/src/libsrcml/cppCallbackAdapter.hpp
+++ b/src/libsrcml/cppCallbackAdapter.hpp
@@ -60,6 +60,7 @@ public:
         handler.end_root = end_root;
         handler.end_unit = end_unit;
         handler.meta_tag = meta_tag;
+        handler.processing_instruction = processing_instruction;
 
         return handler;
     }
diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 1ec2c39..a19011a 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -938,6 +938,10 @@ void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* dat
 
     SRCSAX_DEBUG_START("");
 
+    // part of the archive when in front of the root
+    if (state->mode == START)
+        state->context->handler->processing_instruction(state->context, (const char*) target, data ? (const char*) data : "");
+
     if (state->collect_unit_body) {
 
         collect_markup(ctxt, state, std::string("<?") + (const char*) target + (data ? std::string(" ") + (const char*) data : "") + "?>");
diff --git a/src/libsrcml/srcsax_handler.hpp b/src/libsrcml/srcsax_handler.hpp
index a7de24a..597a0f6 100644
--- a/src/libsrcml/srcsax_handler.hpp
+++ b/src/libsrcml/srcsax_handler.hpp
@@ -120,6 +120,16 @@ struct srcsax_handler {
     void (*meta_tag)(srcsax_context* context, const char* localname, const char* prefix, const char* URI,
                            int num_namespaces, const xmlChar** namespaces, int num_attributes,
                            const xmlChar** attributes);
+
+    /**
+     * processing_instruction
+     * @param context a srcSAX context
+     * @param target the processing instruction target.
+     * @param data the processing instruction data.
+     *
+     * Signature for srcSAX handler function for a processing instruction in front of the root element.
+     */
+    void (*processing_instruction)(srcsax_context* context, const char* target, const char* data);
 };
 
 #endif
-- 
2.43.0


From 881c72b71b157a9f9b0b88769bc8935c1d19fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:48 +0000
Subject: [PATCH 084/115] fix: control characters in the delimiter of a raw
 string are escaped

---
 src/parser/CommentTextLexer.g | 2 +-
 src/parser/TextLexer.g        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/CommentTextLexer.g b/src/parser/CommentTextLexer.g
index 36ed6ba..2f786b6 100644
--- a/src/parser/CommentTextLexer.g
+++ b/src/parser/CommentTextLexer.g
@@ -253,5 +253,5 @@ protected
 RSTRING_DELIMITER:
     { delimiter = ""; }
     (options { greedy = true; } : { delimiter.size() < delimiter1.size() }? { delimiter += LA(1); } 
-        ~('(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
+        ~('(' | ')' | '\\' | '\000'..'\037' | ' ' ))*
 ;
diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index a4f52c4..acd5fe2 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -97,7 +97,7 @@ RAW_STRING_START :
 protected
 RSTRING_DELIMITER:
     { delimiter = ""; }
-    (options { greedy = true; } : { delimiter += LA(1); } ~('(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
+    (options { greedy = true; } : { delimiter += LA(1); } ~('(' | ')' | '\\' | '\000'..'\037' | ' ' ))*
 ;
 
 CHAR_START :
-- 
2.43.0


From beeeb75666ec1577e0b6a54fd4e6913e74606332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:26 +0000
Subject: [PATCH 085/115] fix: the destructor declaration of a class in a
 function is marked

---
 src/parser/srcMLParser.g | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 2e882e9..60960a5 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -4205,8 +4205,8 @@ pattern_check[STMT_TYPE& type, int& token, int& type_count, int& after_token, bo
     else if (type == FUNCTION && fla == COLON)
         type = SINGLE_MACRO;
 
-    // not really a destructor
-    if (type == DESTRUCTOR_DECL && (!inTransparentMode(MODE_CLASS) || inTransparentMode(MODE_FUNCTION_TAIL)))
+    // not really a destructor, unless directly in a class, which may itself be in a function
+    if (type == DESTRUCTOR_DECL && (getFirstMode(MODE_CLASS | MODE_FUNCTION_TAIL) & MODE_CLASS) == 0)
         type = EXPRESSION;
 
     if ((type == FUNCTION || type == FUNCTION_DECL) && fla == COMMA && !inparam)
-- 
2.43.0


From f6db2598f72a7cd90fc75a5183860b2c75a3c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:38 +0000
Subject: [PATCH 086/115] fix: => is one operator whatever the column of the
 operator of an earlier line

---
 src/parser/KeywordLexer.g  | 3 ++-
 src/parser/OperatorLexer.g | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/KeywordLexer.g b/src/parser/KeywordLexer.g
index efa1cd1..ffa2c16 100644
--- a/src/parser/KeywordLexer.g
+++ b/src/parser/KeywordLexer.g
@@ -311,6 +311,7 @@ public:
     bool isline;
     long line_number;
     int lastpos;
+    int lastline;
     int prev;
     int currentmode;
 
@@ -322,7 +323,7 @@ void changetotextlexer(int typeend, const std::string delimiter = "");
 KeywordLexer(UTF8CharBuffer* pinput, int language, OPTION_TYPE & options,
              std::vector<std::string> user_macro_list)
     : antlr::CharScanner(pinput,true), Language(language), options(options), onpreprocline(false), startline(true),
-    atstring(false), rawstring(false), delimiter(""), isline(false), line_number(-1), lastpos(0), prev(0)
+    atstring(false), rawstring(false), delimiter(""), isline(false), line_number(-1), lastpos(0), lastline(0), prev(0)
 {
     if (isoption(options, SRCML_OPTION_LINE))
        setLine(getLine() + (1 << 16));
diff --git a/src/parser/OperatorLexer.g b/src/parser/OperatorLexer.g
index 4cfa118..50dd959 100644
--- a/src/parser/OperatorLexer.g
+++ b/src/parser/OperatorLexer.g
@@ -129,7 +129,7 @@ OPERATORS options { testLiterals = true; } {
     '!' ('=')? |
     ':' (':')? |
 
-    '=' ('=' | { inLanguage(LANGUAGE_CSHARP) && (lastpos != (getColumn() - 1) || prev == ')' || prev == '#') }? '>')? |
+    '=' ('=' | { inLanguage(LANGUAGE_CSHARP) && (lastpos != (getColumn() - 1) || lastline != getLine() || prev == ')' || prev == '#') }? '>')? |
 
     // &, &&, &&=, &=
     '&' ('&')? ('=')? |
@@ -179,5 +179,5 @@ OPERATORS options { testLiterals = true; } {
 
     '\\' ( EOL { $setType(EOL_BACKSLASH); } )*
     )
-    { startline = false; lastpos = getColumn(); prev = start; }
+    { startline = false; lastpos = getColumn(); lastline = getLine(); prev = start; }
 ;
-- 
2.43.0


From 9d7366400811b9c2262d518a7a8e0f0e1b46e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:45 +0000
Subject: [PATCH 087/115] fix: ampersands in namespace URIs of documents are
 read as such

---
 src/libsrcml/sax2_srcsax_handler.cpp  | 10 +++++++++-
 src/libsrcml/srcml_reader_handler.hpp |  6 ++++--
 src/libsrcml/srcml_transform.cpp      |  2 +-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index a19011a..5b2731d 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -307,7 +307,15 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
                 declaration += prefix;
             }
             declaration += "=\"";
-            declaration += (const char*) namespaces[i + 1];
+            // libxml2 leaves an ampersand as a character reference
+            for (const char* p = (const char*) namespaces[i + 1]; p && *p; ++p) {
+                if (*p == '"')
+                    declaration += "&quot;";
+                else if (*p == '<')
+                    declaration += "&lt;";
+                else
+                    declaration += *p;
+            }
             declaration += "\" ";
 
             state->rootnamespaces.emplace_back(std::move(prefix), std::move(declaration));
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 9610374..b9affe3 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -330,7 +330,8 @@ public :
         for (int pos = 0; pos < num_namespaces; ++pos) {
 
             std::string prefix = (const char*) namespaces[pos * 2] ? (const char*) namespaces[pos * 2] : "";
-            std::string uri = (const char*) namespaces[pos * 2 + 1] ? (const char*) namespaces[pos * 2 + 1] : "";
+            const xmlChar* value = namespaces[pos * 2 + 1];
+            std::string uri = value ? attribute_value(value, value + xmlStrlen(value)) : "";
 
             srcml_uri_normalize(uri);
 
@@ -390,7 +391,8 @@ public :
         for (int pos = 0; pos < num_namespaces; ++pos) {
 
             std::string prefix = (const char*) namespaces[pos * 2] ? (const char*) namespaces[pos * 2] : "";
-            std::string uri = (const char*) namespaces[pos * 2 + 1] ? (const char*) namespaces[pos * 2 + 1] : "";
+            const xmlChar* value = namespaces[pos * 2 + 1];
+            std::string uri = value ? attribute_value(value, value + xmlStrlen(value)) : "";
 
             srcml_uri_normalize(uri);
 
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 0c661d2..0a333ed 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -605,7 +605,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
     }
 
     // create a DOM of the unit
-    std::shared_ptr<xmlDoc> doc(xmlReadMemory(unit->srcml.c_str(), (int) unit->srcml.size(), 0, 0, 0), [](xmlDoc* doc) { xmlFreeDoc(doc); });
+    std::shared_ptr<xmlDoc> doc(xmlReadMemory(unit->srcml.c_str(), (int) unit->srcml.size(), 0, 0, XML_PARSE_NOENT), [](xmlDoc* doc) { xmlFreeDoc(doc); });
     if (doc == nullptr)
         return SRCML_STATUS_ERROR;
 
-- 
2.43.0


From 9590c178a6030c49bb0594f9fcb0bc1e1e015f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 088/115] fix: srcML is read even if the first reads are short

---
 src/libsrcml/srcml_archive.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 4fb6adb..2725976 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1063,6 +1063,10 @@ static int srcml_archive_read_open_internal(struct srcml_archive* archive, std::
     if (!input)
         return SRCML_STATUS_IO_ERROR;
 
+    // libxml2 needs the XML declaration at the first look at the input, even if the first reads are short
+    while (input->readcallback && xmlBufUse(input->buffer) < 64 && xmlParserInputBufferGrow(input.get(), 4096) > 0)
+        ;
+
     // attributes and macros are those of the opened srcML, not of what the archive read before
     archive->attributes.clear();
     archive->user_macro_list.clear();
-- 
2.43.0


From 6ee31176d447293ffddb4d9d0747963459c55a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 089/115] fix: unparsing reports that the source could not be
 written

---
 src/libsrcml/srcml_unit.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 37e1ba5..6e18d8e 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -743,6 +743,10 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
         xmlOutputBufferWrite(output_handler.get(), (int) neol.size(), neol.c_str());
     }
 
+    // output is buffered, so any failure may not be known until it is closed
+    if (xmlOutputBufferClose(output_handler.release()) < 0)
+        return SRCML_STATUS_IO_ERROR;
+
     return SRCML_STATUS_OK;
 }
 
-- 
2.43.0


From cd2ef11424275585f4e6163e68026287c3409c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 090/115] fix: writing to an archive reports that the output
 could not be written

---
 src/libsrcml/srcml_archive.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 2725976..eeb5cc4 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1255,7 +1255,12 @@ int srcml_archive_write_unit(struct srcml_archive* archive, struct srcml_unit* u
             return status;
     }
 
-    archive->translator->add_unit(unit);
+    if (!archive->translator->add_unit(unit))
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
+    // some of the previous or current output could not be written
+    if (archive->output_buffer && archive->output_buffer->error)
+        return SRCML_STATUS_IO_ERROR;
 
     return SRCML_STATUS_OK;
 }
@@ -1283,6 +1288,10 @@ int srcml_archive_write_string(struct srcml_archive* archive, const char* s, int
 
     archive->rawwrites = true;
 
+    // some of the previous or current output could not be written
+    if (archive->output_buffer && archive->output_buffer->error)
+        return SRCML_STATUS_IO_ERROR;
+
     return SRCML_STATUS_OK;
 }
 
-- 
2.43.0


From a88aa2e0263ea301933d600d500a9611df67a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:33 +0000
Subject: [PATCH 091/115] fix: a second unit for a document that is not an
 archive is refused

---
 src/libsrcml/srcml_translator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 9d64d2a..f1efdbb 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -203,6 +203,10 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
     if (is_outputting_unit)
         return false;
 
+    // only an archive has more than one unit
+    if (!first && (options & SRCML_OPTION_ARCHIVE) == 0)
+        return false;
+
     prepareOutput();
 
     // space between the previous unit and this one
-- 
2.43.0


From cd5e16adbabdc54245c8baeb2a8efe8586938d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:12 +0000
Subject: [PATCH 092/115] fix: closing an archive records that the srcML could
 not be written

---
 src/libsrcml/srcml_archive.cpp    | 11 +++++++++--
 src/libsrcml/srcml_translator.cpp |  6 ++++--
 src/libsrcml/srcml_translator.hpp |  2 +-
 src/parser/srcMLOutput.cpp        | 12 ++++++++++--
 src/parser/srcMLOutput.hpp        |  2 +-
 5 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index eeb5cc4..83bbbe1 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1381,18 +1381,25 @@ void srcml_archive_close(struct srcml_archive* archive) {
     }
 
     // the translator includes the output buffer
+    bool written = true;
     if (archive->translator) {
-        archive->translator->close();
+        written = archive->translator->close();
         delete archive->translator;
         archive->translator = nullptr;
         archive->output_buffer = nullptr;
     }
 
     if (archive->output_buffer) {
-        xmlOutputBufferClose(archive->output_buffer);
+        written = xmlOutputBufferClose(archive->output_buffer) >= 0;
         archive->output_buffer = nullptr;
     }
 
+    // output is buffered, so this may be the first that is known of a failure
+    if (!written) {
+        archive->error_number = SRCML_STATUS_IO_ERROR;
+        archive->error_string = "Unable to write all of the srcML";
+    }
+
     // Give the user the completed buffer if opened using srcml_archive_write_open_memory()
     if (archive->buffer && archive->size) {
 
diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index f1efdbb..591ae7a 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -92,8 +92,10 @@ void srcml_translator::set_macro_list(std::vector<std::string>& list) {
  * close
  *
  * Close the srcml_translator and the srcML.
+ *
+ * @returns if all of the output was written
  */
-void srcml_translator::close() {
+bool srcml_translator::close() {
 
     if (!first && (options & SRCML_OPTION_ARCHIVE) > 0)
         out.outputUnitSeparator();
@@ -103,7 +105,7 @@ void srcml_translator::close() {
     if (is_outputting_unit)
         add_end_unit();
 
-    out.close();
+    return out.close();
 }
 
 /**
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index d9c07e8..71fb1ed 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -74,7 +74,7 @@ public:
 
     void set_macro_list(std::vector<std::string> & list);
 
-    void close();
+    bool close();
 
     bool translate(UTF8CharBuffer* parser_input);
 
diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 7e282d9..32ab18c 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -120,22 +120,30 @@ srcMLOutput::~srcMLOutput() {
  * close
  *
  * Close/finish the output.
+ *
+ * @returns if all of the output was written
  */
-void srcMLOutput::close() {
+bool srcMLOutput::close() {
+
+    bool written = true;
 
     if (xout) {
 
         if (didwrite)
             xmlTextWriterEndDocument(xout);
+        xmlTextWriterFlush(xout);
+        written = !output_buffer || !output_buffer->error;
         xmlFreeTextWriter(xout);
         xout = 0;
         output_buffer = 0;
 
     } else if (output_buffer) {
 
-        xmlOutputBufferClose(output_buffer);
+        written = xmlOutputBufferClose(output_buffer) >= 0;
         output_buffer = 0;
     }
+
+    return written;
 }
 
 void srcMLOutput::outputUnitSeparator() {
diff --git a/src/parser/srcMLOutput.hpp b/src/parser/srcMLOutput.hpp
index 2e12837..6e279af 100644
--- a/src/parser/srcMLOutput.hpp
+++ b/src/parser/srcMLOutput.hpp
@@ -113,7 +113,7 @@ public:
                  const char* unit_version, const char* unit_timestamp, const char* unit_hash, const char* encoding);
 
     // close the output
-    void close();
+    bool close();
 
     // destructor
     ~srcMLOutput();
-- 
2.43.0


From 1becea8e04a7e35ae756ebad6a945dc700eee3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:31 +0000
Subject: [PATCH 093/115] fix: all of the output is written, even if single
 writes are short

---
 src/libsrcml/libxml2_utilities.hpp | 12 ++++++++++++
 src/libsrcml/srcml_archive.cpp     |  4 +++-
 src/libsrcml/srcml_unit.cpp        |  3 ++-
 src/parser/srcMLOutput.cpp         |  6 ++++--
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/libxml2_utilities.hpp b/src/libsrcml/libxml2_utilities.hpp
index 7bdf835..8193d46 100644
--- a/src/libsrcml/libxml2_utilities.hpp
+++ b/src/libsrcml/libxml2_utilities.hpp
@@ -85,4 +85,16 @@ namespace std {
     };
 }
 
+// write all of the output, even if single writes are short
+// returns if all of it was written
+inline bool flush_output(xmlOutputBufferPtr buffer) {
+
+    int written = 0;
+    do {
+        written = xmlOutputBufferFlush(buffer);
+    } while (written > 0 && !buffer->error && xmlBufUse(buffer->conv ? buffer->conv : buffer->buffer) > 0);
+
+    return !buffer->error && xmlBufUse(buffer->conv ? buffer->conv : buffer->buffer) == 0;
+}
+
 #endif
diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 83bbbe1..7aa92de 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -24,6 +24,7 @@
 #include <srcml_translator.hpp>
 #include <srcml_sax2_reader.hpp>
 #include <libxml/encoding.h>
+#include <libxml2_utilities.hpp>
 
 /**
  * srcml_archive_check_extension
@@ -1390,7 +1391,8 @@ void srcml_archive_close(struct srcml_archive* archive) {
     }
 
     if (archive->output_buffer) {
-        written = xmlOutputBufferClose(archive->output_buffer) >= 0;
+        written = flush_output(archive->output_buffer);
+        written = xmlOutputBufferClose(archive->output_buffer) >= 0 && written;
         archive->output_buffer = nullptr;
     }
 
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 6e18d8e..0ab1711 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -744,7 +744,8 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
     }
 
     // output is buffered, so any failure may not be known until it is closed
-    if (xmlOutputBufferClose(output_handler.release()) < 0)
+    bool written = flush_output(output_handler.get());
+    if (xmlOutputBufferClose(output_handler.release()) < 0 || !written)
         return SRCML_STATUS_IO_ERROR;
 
     return SRCML_STATUS_OK;
diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 32ab18c..970944d 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -28,6 +28,7 @@
 #include "srcMLToken.hpp"
 #include "srcmlns.hpp"
 #include <srcml.h>
+#include <libxml2_utilities.hpp>
 
 // Definition of elements, including name, URI, attributes, and special processing
 // Included to take advantage of inlined methods
@@ -132,14 +133,15 @@ bool srcMLOutput::close() {
         if (didwrite)
             xmlTextWriterEndDocument(xout);
         xmlTextWriterFlush(xout);
-        written = !output_buffer || !output_buffer->error;
+        written = !output_buffer || flush_output(output_buffer);
         xmlFreeTextWriter(xout);
         xout = 0;
         output_buffer = 0;
 
     } else if (output_buffer) {
 
-        written = xmlOutputBufferClose(output_buffer) >= 0;
+        written = flush_output(output_buffer);
+        written = xmlOutputBufferClose(output_buffer) >= 0 && written;
         output_buffer = 0;
     }
 
-- 
2.43.0


From 9a2260ed3db9b48017110b0d4aa283c13eda8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:59 +0000
Subject: [PATCH 094/115] fix: an error of reading a FILE is reported, even if
 it is then at the end

---
 src/parser/UTF8CharBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index c714f38..d58a0fe 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -209,7 +209,7 @@ UTF8CharBuffer::UTF8CharBuffer(FILE* file, const char* encoding, bool hashneeded
     sio.read_callback = [](void* context, void* buf, size_t insize) -> ssize_t {
 
         size_t result = fread(buf, 1, insize, (FILE*) context);
-        if (result == 0 && feof((FILE*) context) != 1)
+        if (result == 0 && (ferror((FILE*) context) || !feof((FILE*) context)))
             return -1;
         else
             return (size_t) result;
-- 
2.43.0


From 5427b32208047af2c1034f04619d1cc27498c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 095/115] fix: an archive records that closing its output
 failed

---
 src/parser/srcMLOutput.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 970944d..4911f93 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -133,7 +133,15 @@ bool srcMLOutput::close() {
         if (didwrite)
             xmlTextWriterEndDocument(xout);
         xmlTextWriterFlush(xout);
-        written = !output_buffer || flush_output(output_buffer);
+        if (output_buffer) {
+            written = flush_output(output_buffer);
+
+            // the text writer does not report that closing failed, e.g., of output which is also buffered there
+            if (output_buffer->closecallback && output_buffer->closecallback(output_buffer->context) < 0)
+                written = false;
+            output_buffer->closecallback = nullptr;
+            output_buffer->writecallback = nullptr;
+        }
         xmlFreeTextWriter(xout);
         xout = 0;
         output_buffer = 0;
-- 
2.43.0


From 5bae9c130d555832b4ce01b5d9792d6afce36d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:33 +0000
Subject: [PATCH 096/115] fix: a string literal ends at its quote when another
 one follows at once, or after a backslash if verbatim

---
 src/parser/CommentTextLexer.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/CommentTextLexer.g b/src/parser/CommentTextLexer.g
index 2f786b6..0aa2c8f 100644
--- a/src/parser/CommentTextLexer.g
+++ b/src/parser/CommentTextLexer.g
@@ -173,7 +173,7 @@ COMMENT_TEXT {
 
     '\042' /* '\"' */
         { dquote_count = 1; }
-        (options { greedy = true; } : { prevLA != '\\' }? '\042' { ++dquote_count; })*
+        (options { greedy = true; } : { noescape }? '\042' { ++dquote_count; })*
     {
         if ((noescape && (dquote_count % 2 == 1)) ||
             (!noescape && (prevLA != '\\') && (mode == STRING_END))) {
-- 
2.43.0


From 988ae5cc58c5642f8d2de3a2673bb428d85fdf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:33 +0000
Subject: [PATCH 097/115] fix: a string literal that is not ended goes to the
 end of the source

---
 src/parser/CommentTextLexer.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/CommentTextLexer.g b/src/parser/CommentTextLexer.g
index 0aa2c8f..1801dd3 100644
--- a/src/parser/CommentTextLexer.g
+++ b/src/parser/CommentTextLexer.g
@@ -240,7 +240,7 @@ COMMENT_TEXT {
         */
         if (_ttype == COMMENT_TEXT &&
             ((LA(1) == '\n' && mode != RAW_STRING_END) || LA(1) == EOF_CHAR) &&
-            ((((mode == STRING_END || mode == RAW_STRING_END) || mode == CHAR_END) && (onpreprocline || mode == RAW_STRING_END))
+            ((((mode == STRING_END || mode == RAW_STRING_END) || mode == CHAR_END) && (onpreprocline || mode == RAW_STRING_END || LA(1) == EOF_CHAR))
              || mode == LINE_COMMENT_END || mode == LINE_DOXYGEN_COMMENT_END)) {
 
             $setType(mode);
-- 
2.43.0


From 9f07eb1d7c8ce22ff491d98c054e1862199318c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:33 +0000
Subject: [PATCH 098/115] fix: strings of Objective-C have escapes

---
 src/parser/OperatorLexer.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/OperatorLexer.g b/src/parser/OperatorLexer.g
index 50dd959..48d8553 100644
--- a/src/parser/OperatorLexer.g
+++ b/src/parser/OperatorLexer.g
@@ -167,7 +167,8 @@ OPERATORS options { testLiterals = true; } {
         CHAR_START |
 
         { inLanguage(LANGUAGE_CSHARP) || inLanguage(LANGUAGE_OBJECTIVE_C) }? {
-            atstring = true; 
+            // verbatim string, i.e., without escapes, in C# only
+            atstring = inLanguage(LANGUAGE_CSHARP);
             $setType(STRING_START);
         }
         STRING_START )? |
-- 
2.43.0


From 06218c2052d52e8bf9be1c506c05069b2c55355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:33 +0000
Subject: [PATCH 099/115] fix: an exponent can be an upper-case E

---
 src/parser/TextLexer.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index acd5fe2..7cee8af 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -111,7 +111,7 @@ CONSTANTS :
     { startline = false; }
     ('0'..'9') (options { greedy = true; } : '0'..'9' | '_')*
     (options { greedy = true; } : '.' | '0'..'9')*
-    (options { greedy = true; } : 'e' ('+' | '-')* ('0'..'9')*)?
+    (options { greedy = true; } : ('e' | 'E') ('+' | '-')* ('0'..'9')*)?
     (options { greedy = true; } : 'i' { $setType(COMPLEX_NUMBER); })*
     (options { greedy = true; } : NAME)*
     {
-- 
2.43.0


From b64089b7c77a972ec3be49546cb0a22a0acc4524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:33 +0000
Subject: [PATCH 100/115] fix: /*!/ starts a comment and does not end it

---
 src/parser/TextLexer.g | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index 7cee8af..95101d7 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -154,11 +154,18 @@ LINE_COMMENT_START options { testLiterals = true; } { int mode = 0; } : '/'
                 $setType(JAVADOC_COMMENT_START);
                 mode = JAVADOC_COMMENT_END;
             } ('/' { $setType(WHOLE_COMMENT); mode = 0; })? |
-            { inLanguage(LANGUAGE_CXX) || inLanguage(LANGUAGE_C) || inLanguage(LANGUAGE_CSHARP) }? ('*' | '!')
+            { inLanguage(LANGUAGE_CXX) || inLanguage(LANGUAGE_C) || inLanguage(LANGUAGE_CSHARP) }? '*'
             {
                 $setType(DOXYGEN_COMMENT_START);
                 mode = DOXYGEN_COMMENT_END;
-            } ('/' { $setType(WHOLE_COMMENT); mode = 0; })?
+            } ('/' { $setType(WHOLE_COMMENT); mode = 0; })? |
+
+            // not the start of a whole comment, as in /*!/ */
+            { inLanguage(LANGUAGE_CXX) || inLanguage(LANGUAGE_C) || inLanguage(LANGUAGE_CSHARP) }? '!'
+            {
+                $setType(DOXYGEN_COMMENT_START);
+                mode = DOXYGEN_COMMENT_END;
+            }
         )? |
 
     // /= is an operator
-- 
2.43.0


From dc3e77f3845284b86f000b9ac2e0d3699255a336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:03 +0000
Subject: [PATCH 101/115] fix: a directive ends at the end of the line also if
 a quote is the last character

---
 src/parser/TextLexer.g | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index 95101d7..37fd9fe 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -70,7 +70,11 @@ STRING_START :
     // note that the "abc does not end at the end of this line,
     // but the #define must end, so EOL is not a valid string character
     '"' {
-        changetotextlexer(STRING_END); 
+        // nothing left of the string on a preprocessor line, so the EOL must not be part of it
+        if (onpreprocline && (LA(1) == '\n' || LA(1) == EOF_CHAR))
+            $setType(OPERATORS);
+        else
+            changetotextlexer(STRING_END); 
 
         atstring = false;
     }
@@ -104,7 +108,15 @@ CHAR_START :
     { startline = false; }
 
     // character literal or single quoted string
-    '\'' { $setType(CHAR_START); changetotextlexer(CHAR_END); }
+    '\'' {
+        $setType(CHAR_START);
+
+        // nothing left of the character on a preprocessor line, so the EOL must not be part of it
+        if (onpreprocline && (LA(1) == '\n' || LA(1) == EOF_CHAR))
+            $setType(OPERATORS);
+        else
+            changetotextlexer(CHAR_END);
+    }
 ;
 
 CONSTANTS :
-- 
2.43.0


From bc5867c5fb0b499a91f1daf722ad5d32f8a9fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:30 +0000
Subject: [PATCH 102/115] fix: a directive ends with the line also if an empty
 line comment, or a control character in it, is last

---
 src/parser/StreamMLParser.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 0877854..89a49f0 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -397,8 +397,14 @@ private:
                     slastcolumn = LT(1)->getColumn() - 1;
                     slastline = LT(1)->getLine();
                     pushESkipToken(srcMLParser::SLINE_DOXYGEN_COMMENT);
-                    pushSkipToken();
-                    srcMLParser::consume();
+
+                    // the newline ends a preprocessor directive
+                    if (inskip && srcMLParser::inputState->guessing == 0) {
+                        LT(1)->setType(srcMLParser::EOL);
+                    } else {
+                        pushSkipToken();
+                        srcMLParser::consume();
+                    }
                 }
 
                 break;
@@ -494,8 +500,14 @@ private:
                     slastcolumn = LT(1)->getColumn() - 1;
                     slastline = LT(1)->getLine();
                     pushESkipToken(srcMLParser::SLINECOMMENT);
-                    pushSkipToken();
-                    srcMLParser::consume();
+
+                    // the newline ends a preprocessor directive
+                    if (inskip && srcMLParser::inputState->guessing == 0) {
+                        LT(1)->setType(srcMLParser::EOL);
+                    } else {
+                        pushSkipToken();
+                        srcMLParser::consume();
+                    }
                 }
 
                 break;
-- 
2.43.0


From ad52593c77808cc519e5bf15c46afcf59bc2c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:59 +0000
Subject: [PATCH 103/115] fix: a preprocessor condition is 0 only if that is
 all of it

---
 src/parser/srcMLParser.g               | 13 +++++++++++--
 src/parser/srcml_bitset_token_sets.hpp |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 60960a5..2a894c3 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -722,6 +722,8 @@ public:
     int current_line = -1;
     int nxt_token = -1;
     int last_consumed = -1;
+    int last_consumed_line = -1;
+    int last_consumed_column = -1;
     bool wait_terminate_post = false;
     bool cppif_duplicate = false;
     size_t number_finishing_elements = 0;
@@ -801,7 +803,11 @@ public:
 
     virtual void consume() {
 
-        if (!skip_tokens_set.member(LA(1))) last_consumed = LA(1);
+        if (!skip_tokens_set.member(LA(1))) {
+            last_consumed = LA(1);
+            last_consumed_line = LT(1)->getLine();
+            last_consumed_column = LT(1)->getColumn();
+        }
         LLkParser::consume();
 
 
@@ -9698,11 +9704,14 @@ line_continuation[] { ENTRY_DEBUG } :
 ;
 
 // condition in cpp
-cpp_condition[bool& markblockzero] { CompleteElement element(this); ENTRY_DEBUG } :
+cpp_condition[bool& markblockzero] { CompleteElement element(this); int line = LT(1)->getLine(); int column = LT(1)->getColumn(); ENTRY_DEBUG } :
 
         set_bool[markblockzero, LA(1) == CONSTANTS && LT(1)->getText() == "0"]
 
         cpp_complete_expression
+
+        // only if it is the entire condition
+        set_bool[markblockzero, markblockzero && last_consumed_line == line && last_consumed_column == column]
 ;
 
 // an expression
diff --git a/src/parser/srcml_bitset_token_sets.hpp b/src/parser/srcml_bitset_token_sets.hpp
index 3b89ce3..bb1967f 100644
--- a/src/parser/srcml_bitset_token_sets.hpp
+++ b/src/parser/srcml_bitset_token_sets.hpp
@@ -108,7 +108,8 @@ token_set(srcMLParser, modifier_tokens_set,
 
 token_set(srcMLParser, skip_tokens_set,
     srcMLParser::WS, srcMLParser::CONTROL_CHAR, srcMLParser::EOL_BACKSLASH, srcMLParser::BLOCK_COMMENT_START, srcMLParser::BLOCK_COMMENT_END, srcMLParser::LINE_COMMENT_END, srcMLParser::COMMENT_TEXT,
-    srcMLParser::LINE_COMMENT_START, srcMLParser::JAVADOC_COMMENT_START, srcMLParser::DOXYGEN_COMMENT_START, srcMLParser::LINE_DOXYGEN_COMMENT_START, srcMLParser::EOL, srcMLParser::WHOLE_COMMENT
+    srcMLParser::LINE_COMMENT_START, srcMLParser::JAVADOC_COMMENT_START, srcMLParser::DOXYGEN_COMMENT_START, srcMLParser::LINE_DOXYGEN_COMMENT_START, srcMLParser::EOL, srcMLParser::WHOLE_COMMENT,
+    srcMLParser::JAVADOC_COMMENT_END, srcMLParser::DOXYGEN_COMMENT_END, srcMLParser::LINE_DOXYGEN_COMMENT_END
 )
 
 token_set(srcMLParser, class_tokens_set,
-- 
2.43.0


From 97284b89f73dbf0b7240c7efc745e1a9ba40575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:59 +0000
Subject: [PATCH 104/115] fix: a line continuation is of a single line end, and
 a directive goes on after it

---
 src/parser/OperatorLexer.g | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/OperatorLexer.g b/src/parser/OperatorLexer.g
index 48d8553..58e55c4 100644
--- a/src/parser/OperatorLexer.g
+++ b/src/parser/OperatorLexer.g
@@ -104,6 +104,7 @@ tokens {
 
 OPERATORS options { testLiterals = true; } {
     int start = LA(1);
+    bool continuepreprocline = onpreprocline;
 } : (
     '#'
     {
@@ -178,7 +179,8 @@ OPERATORS options { testLiterals = true; } {
 
     '.' ({ inLanguage(LANGUAGE_C_FAMILY) }? '*' | '.' ('.')? | { $setType(CONSTANTS); } CONSTANTS )? |
 
-    '\\' ( EOL { $setType(EOL_BACKSLASH); } )*
+    // a line continuation is a single EOL, and a preprocessor line goes on
+    '\\' ( EOL { $setType(EOL_BACKSLASH); onpreprocline = continuepreprocline; } )?
     )
     { startline = false; lastpos = getColumn(); lastline = getLine(); prev = start; }
 ;
-- 
2.43.0


From c4f4df7f5b30983c99d28b732e628a40811b176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:12 +0000
Subject: [PATCH 105/115] fix: parts left out by #if 0 and #else end at their
 own #endif, and not by what is looked at ahead

---
 src/parser/srcMLParser.g | 104 ++++++++++++++++++++++++++-------------
 1 file changed, 69 insertions(+), 35 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 2a894c3..582123a 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -700,9 +700,23 @@ public:
     friend class LightweightElement;
     friend class SingleElement;
 
-    bool cpp_zeromode = false;
-    bool cpp_skipelse = false;
-    int cpp_ifcount = 0;
+    // state of the conditional directives
+    struct cpp_conditional {
+
+        // number of open #if's
+        int ifcount = 0;
+
+        // the open #if that is in an #if 0 part, 0 if none
+        int zeromode = 0;
+
+        // the open #if that is in an #else (or #elif) part, 0 if none
+        int skipelse = 0;
+    };
+    cpp_conditional cpp_state;
+
+    // states of the conditional directives at the positions that can be returned to
+    std::vector<std::pair<unsigned int, cpp_conditional>> cpp_marks;
+
     bool isdestructor = false;
     const OPTION_TYPE parser_options = 0;
     std::array<std::string, 2> namestack;
@@ -801,6 +815,30 @@ public:
     }
 
 
+    // directives may be passed while guessing, so the state of the conditional directives goes with the position
+    virtual unsigned int mark() {
+
+        unsigned int pos = LLkParser::mark();
+        cpp_marks.emplace_back(pos, cpp_state);
+
+        return pos;
+    }
+
+    virtual void rewind(unsigned int pos) {
+
+        LLkParser::rewind(pos);
+
+        while (!cpp_marks.empty()) {
+
+            auto item = cpp_marks.back();
+            cpp_marks.pop_back();
+            if (item.first == pos) {
+                cpp_state = item.second;
+                break;
+            }
+        }
+    }
+
     virtual void consume() {
 
         if (!skip_tokens_set.member(LA(1))) {
@@ -9523,7 +9561,7 @@ eol_post[int directive_token, bool markblockzero] {
 
         // Flags to control skipping of #if 0 and #else.
         // Once in these modes, stay in these modes until the matching #endif is reached
-        // cpp_ifcount used to indicate which #endif matches the #if or #else
+        // the number of the #if is used to indicate which #endif matches the #if or #else
         switch (directive_token) {
 
             case IF :
@@ -9581,19 +9619,12 @@ eol_post[int directive_token, bool markblockzero] {
                     }
                 }                      
 
-                // start a new blank mode for new zero'ed blocks
-                if (!cpp_zeromode && markblockzero) {
-
-                    // start a new blank mode for if
-                    cpp_zeromode = true;
-
-                    // keep track of nested if's (inside the #if 0) so we know when
-                    // we reach the proper #endif
-                    cpp_ifcount = 0;
-                }
-
                 // another if reached
-                ++cpp_ifcount;
+                ++cpp_state.ifcount;
+
+                // start a new blank mode for new zero'ed blocks
+                if (!cpp_state.zeromode && markblockzero)
+                    cpp_state.zeromode = cpp_state.ifcount;
 
                 // create new context for #if (and possible #else)
                 if (!isoption(parser_options, SRCML_OPTION_CPP_TEXT_ELSE) && !inputState->guessing)
@@ -9604,15 +9635,17 @@ eol_post[int directive_token, bool markblockzero] {
             case ELSE :
             case ELIF :
 
+                // #else without an #if
+                if (cpp_state.ifcount == 0)
+                    cpp_state.ifcount = 1;
+
                 // #else reached for #if 0 that started this mode
-                if (cpp_zeromode && cpp_ifcount == 1)
-                    cpp_zeromode = false;
+                if (cpp_state.zeromode == cpp_state.ifcount)
+                    cpp_state.zeromode = 0;
 
-                // not in skipped #if, so skip #else until #endif of #if is reached
-                else if (!cpp_zeromode) {
-                    cpp_skipelse = true;
-                    cpp_ifcount = 1;
-                }
+                // not of a skipped #if, so skip #else until #endif of #if is reached
+                else if (!cpp_state.skipelse)
+                    cpp_state.skipelse = cpp_state.ifcount;
 
                 if (isoption(parser_options, SRCML_OPTION_CPP_TEXT_ELSE) && !inputState->guessing) {
 
@@ -9623,23 +9656,24 @@ eol_post[int directive_token, bool markblockzero] {
                     // add new context for #else in current #if
                     cppmode.top().statesize.push_back(size());
 
-                    if (!cpp_zeromode && cppmode.top().statesize.front() > size())
+                    if (!cpp_state.zeromode && cppmode.top().statesize.front() > size())
                             cppmode.top().skipelse = true;
                 }
                 break;
 
             case ENDIF :
 
-                // another #if ended
-                --cpp_ifcount;
-
                 // #endif reached for #if 0 that started this mode
-                if (cpp_zeromode && cpp_ifcount == 0)
-                    cpp_zeromode = false;
+                if (cpp_state.zeromode == cpp_state.ifcount)
+                    cpp_state.zeromode = 0;
 
                 // #endif reached for #else that started this mode
-                if (cpp_skipelse && cpp_ifcount == 0)
-                    cpp_skipelse = false;
+                if (cpp_state.skipelse == cpp_state.ifcount)
+                    cpp_state.skipelse = 0;
+
+                // another #if ended
+                if (cpp_state.ifcount > 0)
+                    --cpp_state.ifcount;
 
                 if (isoption(parser_options, SRCML_OPTION_CPP_TEXT_ELSE) && !inputState->guessing &&
                     !cppmode.empty()) {
@@ -9660,14 +9694,14 @@ eol_post[int directive_token, bool markblockzero] {
 
         /*
             Skip elements when:
-                - in zero block (cpp_zeromode) and not marking #if 0
+                - in zero block (zeromode) and not marking #if 0
                 - when processing only #if part, not #else
                 - when guessing and in else (unless in zero block)
                 - when ??? for cppmode
         */
-        if ((!isoption(parser_options, SRCML_OPTION_CPP_MARKUP_IF0) && cpp_zeromode) ||
-            (isoption(parser_options, SRCML_OPTION_CPP_TEXT_ELSE) && cpp_skipelse) ||
-            (isoption(parser_options, SRCML_OPTION_CPP_TEXT_ELSE) && inputState->guessing && cpp_skipelse) ||
+        if ((!isoption(parser_options, SRCML_OPTION_CPP_MARKUP_IF0) && cpp_state.zeromode) ||
+            (isoption(parser_options, SRCML_OPTION_CPP_TEXT_ELSE) && cpp_state.skipelse) ||
+            (isoption(parser_options, SRCML_OPTION_CPP_TEXT_ELSE) && inputState->guessing && cpp_state.skipelse) ||
             (!cppmode.empty() && !cppmode.top().isclosed && cppmode.top().skipelse)
         ) {
             while (LA(1) != PREPROC && LA(1) != 1 /* EOF */)
-- 
2.43.0


From edca6a599ec00733558220fadd4dad4946daef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:33 +0000
Subject: [PATCH 106/115] fix: a preprocessor condition is no ternary because
 of one on a later line

---
 src/parser/srcMLParser.g | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 582123a..3483a47 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -2138,13 +2138,13 @@ perform_ternary_check[] returns [bool is_ternary] {
 ternary_check[] { ENTRY_DEBUG } :
 
 
-    // ends are catch alls ok if overlap
+    // ends are catch alls ok if overlap, with EOL only in a preprocessor directive
     ({ LA(1) != 1 && !is_lambda_arrow() }? (options { generateAmbigWarnings = false; } : {identifier_list_tokens_set.member(LA(1)) }? compound_name_inner[false] | paren_pair | bracket_pair (options { greedy = true; } : paren_pair | curly_pair)*
-         | ~(QMARK | TERMINATE | LCURLY | COLON | RPAREN | COMMA | RBRACKET | RCURLY | EQUAL | ASSIGNMENT)))
+         | ~(QMARK | TERMINATE | LCURLY | COLON | RPAREN | COMMA | RBRACKET | RCURLY | EQUAL | ASSIGNMENT | EOL)))
 
     // ends are catch alls ok if overlap
     ({ LA(1) != 1 && !is_lambda_arrow() }? (options { generateAmbigWarnings = false; } : {identifier_list_tokens_set.member(LA(1)) }? compound_name_inner[false] | paren_pair | bracket_pair (options { greedy = true; } : paren_pair | curly_pair)*
-         | ~(QMARK | TERMINATE | LCURLY  | COLON | RPAREN | COMMA | RBRACKET | RCURLY | EQUAL | ASSIGNMENT)))* 
+         | ~(QMARK | TERMINATE | LCURLY  | COLON | RPAREN | COMMA | RBRACKET | RCURLY | EQUAL | ASSIGNMENT | EOL)))* 
 ;
 
 
-- 
2.43.0


From 66edb5e8471ad8260ae8279e971089c32845fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:31 +0000
Subject: [PATCH 107/115] fix: the #else of an #if 0 in a part that is marked
 is not left out

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 3483a47..3f7edcc 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -9656,7 +9656,7 @@ eol_post[int directive_token, bool markblockzero] {
                     // add new context for #else in current #if
                     cppmode.top().statesize.push_back(size());
 
-                    if (!cpp_state.zeromode && cppmode.top().statesize.front() > size())
+                    if (cpp_state.skipelse && cppmode.top().statesize.front() > size())
                             cppmode.top().skipelse = true;
                 }
                 break;
-- 
2.43.0


From e4bf2a2d9a6cf039544b1e488cc02bcde100d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:51 +0000
Subject: [PATCH 108/115] fix: a single quote in a number of C++ is a digit
 separator, and starts no character literal

---
 src/parser/TextLexer.g | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index 37fd9fe..4ed7bce 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -121,11 +121,12 @@ CHAR_START :
 
 CONSTANTS :
     { startline = false; }
-    ('0'..'9') (options { greedy = true; } : '0'..'9' | '_')*
-    (options { greedy = true; } : '.' | '0'..'9')*
+    // in C++ a single quote can separate the digits, e.g., 1'000, or 0xFF'FF
+    ('0'..'9') (options { greedy = true; } : '0'..'9' | '_' | { inLanguage(LANGUAGE_CXX) && isalnum(LA(2)) }? '\'')*
+    (options { greedy = true; } : '.' | '0'..'9' | { inLanguage(LANGUAGE_CXX) && isalnum(LA(2)) }? '\'')*
     (options { greedy = true; } : ('e' | 'E') ('+' | '-')* ('0'..'9')*)?
     (options { greedy = true; } : 'i' { $setType(COMPLEX_NUMBER); })*
-    (options { greedy = true; } : NAME)*
+    (options { greedy = true; } : NAME | { inLanguage(LANGUAGE_CXX) && isalnum(LA(2)) }? '\'' ('0'..'9')*)*
     {
         //firstpreprocline = false;
         if (onpreprocline && isline) {
-- 
2.43.0


From 2693ecba834c08da0096e869317d8fbe3704ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:50 +0000
Subject: [PATCH 109/115] fix: an element that cannot be started is not counted
 as started

---
 src/libsrcml/srcml_translator.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 591ae7a..9290e17 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -345,15 +345,18 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
     if (strcmp(name, "unit") == 0)
         return false;
 
-    ++output_unit_depth;
-    start_tag_open = true;
-
     const char* used_uri = nullptr;
     if (uri == nullptr || strcmp(SRCML_SRC_NS_URI, uri) != 0) {
         used_uri = uri;
     }
 
-    return xmlTextWriterStartElementNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST used_uri) != -1;
+    if (xmlTextWriterStartElementNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST used_uri) == -1)
+        return false;
+
+    ++output_unit_depth;
+    start_tag_open = true;
+
+    return true;
 }
 
 /**
-- 
2.43.0


From b97dbf27391fe6bedd81dad2c1432a1f758c6442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:50 +0000
Subject: [PATCH 110/115] fix: an attribute without content is refused before
 it is started

---
 src/libsrcml/srcml_translator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 9290e17..0de96cb 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -419,7 +419,7 @@ bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
 bool srcml_translator::add_attribute(const char* prefix, const char* name, const char* uri, const char* content) {
 
     // only in the start tag of an element, as that of the unit is complete
-    if (!is_outputting_unit || !start_tag_open || name == 0)
+    if (!is_outputting_unit || !start_tag_open || name == 0 || content == 0)
         return false;
 
     return xmlTextWriterWriteAttributeNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST uri, BAD_CAST content) != -1;
-- 
2.43.0


From 20a5f5b44e220b5a5598ee7c7feeef07c0f946c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:10 +0000
Subject: [PATCH 111/115] fix: an open archive stays open when opening another
 output for it fails

---
 src/libsrcml/srcml_archive.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 7aa92de..8f08ad1 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -926,11 +926,12 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
-
-    if (!archive->output_buffer)
+    // if it is already open, and this fails, it stays open
+    auto output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
+    if (!output_buffer)
         return SRCML_STATUS_IO_ERROR;
 
+    archive->output_buffer = output_buffer;
     archive->type = SRCML_ARCHIVE_WRITE;
 
     return SRCML_STATUS_OK;
@@ -982,11 +983,12 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
     if (archive == nullptr || srcml_file == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, 0);
-
-    if (!archive->output_buffer)
+    // if it is already open, and this fails, it stays open
+    auto output_buffer = xmlOutputBufferCreateFile(srcml_file, 0);
+    if (!output_buffer)
         return SRCML_STATUS_IO_ERROR;
 
+    archive->output_buffer = output_buffer;
     archive->type = SRCML_ARCHIVE_WRITE;
 
     return SRCML_STATUS_OK;
@@ -1007,11 +1009,12 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive == nullptr || srcml_fd < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, 0);
-
-    if (!archive->output_buffer)
+    // if it is already open, and this fails, it stays open
+    auto output_buffer = xmlOutputBufferCreateFd(srcml_fd, 0);
+    if (!output_buffer)
         return SRCML_STATUS_IO_ERROR;
 
+    archive->output_buffer = output_buffer;
     archive->type = SRCML_ARCHIVE_WRITE;
 
     return SRCML_STATUS_OK;
@@ -1035,11 +1038,12 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
     if (archive == nullptr || context == nullptr || write_callback == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, 0);
-
-    if (!archive->output_buffer)
+    // if it is already open, and this fails, it stays open
+    auto output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, 0);
+    if (!output_buffer)
         return SRCML_STATUS_IO_ERROR;
 
+    archive->output_buffer = output_buffer;
     archive->type = SRCML_ARCHIVE_WRITE;
 
     return SRCML_STATUS_OK;
-- 
2.43.0


From a0902c1bec002c0d39e7b00f19f65326fc822613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:08 +0000
Subject: [PATCH 112/115] fix: a revision of srcDiff has the text after the
 last tag, and empty elements of srcDiff do not go on

---
 src/libsrcml/unit_utilities.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index f3b465e..a58a6bf 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -104,6 +104,9 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
     mode.push(COMMON);
 
     std::string news;
+    if (size <= 0)
+        return news;
+
     const char* p = srcml;
     const char* lp = p;
     while ((p = (const char*) memchr(p, '<', size - (p - srcml)))) {
@@ -124,7 +127,10 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
 
             const char* tstart = sp + 1 + strlen(DIFF_PREFIX);
 
-            if (strncmp(tstart, "delete", 6) == 0) {
+            // an empty element does not have an end tag
+            if (*(p - 2) == '/')
+                ;
+            else if (strncmp(tstart, "delete", 6) == 0) {
                 mode.push(DELETE);
             } else if (strncmp(tstart, "insert", 6) == 0) {
                 mode.push(INSERT);
@@ -143,6 +149,10 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
         lp = p;
     }
 
+    // output text after the last tag
+    if (mode.top() == COMMON || (revision == 0 && mode.top() == DELETE) || (revision == 1 && mode.top() == INSERT))
+        news.append(lp, size - (lp - srcml));
+
     return news;
 }
 
-- 
2.43.0


From ee14674ba458cbda21f72c09245f395be453215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:08 +0000
Subject: [PATCH 113/115] fix: unparse of a revision of srcDiff is the source
 of that revision

---
 src/libsrcml/srcml_unit.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 0ab1711..a02f5c3 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -707,22 +707,28 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
         return SRCML_STATUS_IO_ERROR;
     }
 
+    // the source of a revision of srcDiff is only that of the revision
+    boost::optional<std::string> revision_src;
+    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
+        revision_src = extract_src(extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), (int) *unit->archive->revision_number));
+    }
+
     // if this unit was parsed from source, then the src does not exist
     // generate this source from the srcml
-    if (!unit->src) {
+    if (!revision_src && !unit->src) {
         unit->src = extract_src(unit->srcml);
     }
+    const std::string& src = revision_src ? *revision_src : *unit->src;
 
     // if EOL is not auto, then need to convert for
     if (unit->eol == SOURCE_OUTPUT_EOL_AUTO) {
-        xmlOutputBufferWrite(output_handler.get(), (int) unit->src->size(), unit->src->c_str());
+        xmlOutputBufferWrite(output_handler.get(), (int) src.size(), src.c_str());
     } else {
 
         // convert to the given eol
         std::string neol(0, ' ');
-        neol.reserve(unit->src->size());
+        neol.reserve(src.size());
 
-        const std::string& src = *unit->src;
         for (size_t i = 0; i < src.size(); ++i) {
             if (src[i] != '\n') {
                 neol += src[i];
-- 
2.43.0


From a8c7cf81076b2b4fb82875ad96ddac10930a1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:46 +0000
Subject: [PATCH 114/115] fix: array subscripts nested in each other in Java
 and C# are parsed in linear time

---
 src/parser/srcMLParser.g | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 3f7edcc..eb85646 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -6275,7 +6275,7 @@ expression_part_no_ternary[CALL_TYPE type = NOCALL, int call_count = 1] { bool f
         { next_token() == LCURLY }?
         lambda_anonymous |
 
-        { inLanguage(LANGUAGE_CSHARP) }?
+        { inLanguage(LANGUAGE_CSHARP) && (LA(1) == ASYNC || LA(1) == LPAREN || next_token() == LAMBDA) }?
         (lambda_expression_full_csharp) => lambda_expression_csharp |
 
         { inLanguage(LANGUAGE_CXX) }?
@@ -6284,7 +6284,7 @@ expression_part_no_ternary[CALL_TYPE type = NOCALL, int call_count = 1] { bool f
         { inLanguage(LANGUAGE_C_FAMILY) && !inLanguage(LANGUAGE_CSHARP) }?
         (block_lambda_expression_full) => block_lambda_expression |
 
-        { inLanguage(LANGUAGE_JAVA) }?
+        { inLanguage(LANGUAGE_JAVA) && (LA(1) == LPAREN || next_token() == TRETURN) }?
         ((paren_pair | variable_identifier) TRETURN) => lambda_expression_java |
 
         { inLanguage(LANGUAGE_JAVA_FAMILY) }?
@@ -8004,7 +8004,7 @@ expression_part[CALL_TYPE type = NOCALL, int call_count = 1] { bool flag; bool i
         { next_token() == LCURLY }?
         lambda_anonymous |
 
-        { inLanguage(LANGUAGE_CSHARP) }?
+        { inLanguage(LANGUAGE_CSHARP) && (LA(1) == ASYNC || LA(1) == LPAREN || next_token() == LAMBDA) }?
         (lambda_expression_full_csharp) => lambda_expression_csharp |
 
         { inLanguage(LANGUAGE_CXX) }?
@@ -8013,7 +8013,7 @@ expression_part[CALL_TYPE type = NOCALL, int call_count = 1] { bool flag; bool i
         { inLanguage(LANGUAGE_C_FAMILY) && !inLanguage(LANGUAGE_CSHARP) }?
         (block_lambda_expression_full) => block_lambda_expression |
 
-        { inLanguage(LANGUAGE_JAVA) }?
+        { inLanguage(LANGUAGE_JAVA) && (LA(1) == LPAREN || next_token() == TRETURN) }?
         ((paren_pair | variable_identifier) TRETURN) => lambda_expression_java |
 
         { inLanguage(LANGUAGE_JAVA_FAMILY) }?
-- 
2.43.0


From 2e3440f27e2e07d5e5a90a0a13788b1df280ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:02 +0000
Subject: [PATCH 115/115] fix: a transformation without a place for results
 replaces the unit, as documented

---
 src/libsrcml/srcml_transform.cpp | 62 ++++++++++++++++----------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 0a333ed..f73db52 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -596,14 +596,32 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
     if (archive->transformations.empty())
         return SRCML_STATUS_OK;
 
-    srcml_transform_result* result = nullptr;
-    if (presult) {
-        *presult = new srcml_transform_result;
-        result = *presult;
-        result->type = SRCML_RESULT_NONE;
-        result->boolValue = false;
+    // with no place for the results, a single unit replaces the unit, and any other result is an error
+    if (presult == nullptr) {
+
+        srcml_transform_result* unit_result = nullptr;
+        int status = srcml_unit_apply_transforms(archive, unit, &unit_result);
+        std::unique_ptr<srcml_transform_result, int (*)(srcml_transform_result*)> holder(unit_result, srcml_transform_free);
+        if (status != SRCML_STATUS_OK)
+            return status;
+
+        if (unit_result->type != SRCML_RESULT_UNITS || unit_result->units.size() != 1)
+            return SRCML_STATUS_ERROR;
+
+        // output of the unit in progress is not part of the result
+        srcml_unit* new_unit = unit_result->units.front();
+        std::swap(*unit, *new_unit);
+        std::swap(unit->output_buffer, new_unit->output_buffer);
+        std::swap(unit->unit_translator, new_unit->unit_translator);
+
+        return SRCML_STATUS_OK;
     }
 
+    *presult = new srcml_transform_result;
+    srcml_transform_result* result = *presult;
+    result->type = SRCML_RESULT_NONE;
+    result->boolValue = false;
+
     // create a DOM of the unit
     std::shared_ptr<xmlDoc> doc(xmlReadMemory(unit->srcml.c_str(), (int) unit->srcml.size(), 0, 0, XML_PARSE_NOENT), [](xmlDoc* doc) { xmlFreeDoc(doc); });
     if (doc == nullptr)
@@ -678,15 +696,12 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         // if there are no results, then we can't apply further transformations
         // but there still might be results in the scalar values
         if (fullresults->nodeNr == 0) {
-            if (result)
-                result->units.clear();
+            result->units.clear();
             break;
         }
     }
 
-    if (result) {
-        result->type = lastresult.nodeType;
-    }
+    result->type = lastresult.nodeType;
 
     if (lastresult.nodeType != SRCML_RESULT_UNITS) {
         // remove all nodes in the fullresults nodeset
@@ -698,30 +713,17 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
     // handle non-nodeset results
     switch (lastresult.nodeType) {
     case SRCML_RESULT_STRING:
-        if (result != nullptr) {
-            result->stringValue = lastresult.stringValue;
-            return SRCML_STATUS_OK;
-        }
-        return SRCML_STATUS_ERROR;
+        result->stringValue = lastresult.stringValue;
+        return SRCML_STATUS_OK;
 
     case SRCML_RESULT_BOOLEAN:
-        if (result != nullptr) {
-            result->boolValue = lastresult.boolValue;
-            return SRCML_STATUS_OK;
-        }
-        return SRCML_STATUS_ERROR;
+        result->boolValue = lastresult.boolValue;
+        return SRCML_STATUS_OK;
 
     case SRCML_RESULT_NUMBER:
-        if (result != nullptr) {
-            result->numberValue = lastresult.numberValue;
-            return SRCML_STATUS_OK;
-        }
-        return SRCML_STATUS_ERROR;
-    };
-
-    if (result == nullptr) {
+        result->numberValue = lastresult.numberValue;
         return SRCML_STATUS_OK;
-    }
+    };
 
     // create units out of the transformation results
     result->type = lastresult.nodeType;
-- 
2.43.0

