From 3cc2747960a126e85022b9d9de7eb842a6baad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 001/277] fix: M_buf_merge copied already dropped bytes instead
 of the remaining data

The source's data_consumed offset (advanced by M_buf_drop()) was ignored, so
merging or joining a buffer that had data dropped from its front appended
the wiped bytes.
---
 base/data/m_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index c28148f..2794867 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -167,7 +167,7 @@ void M_buf_merge(M_buf_t *dest, M_buf_t *source)
 {
 	if (dest == NULL || source == NULL)
 		return;
-	M_buf_add_bytes(dest, source->data, source->data_length);
+	M_buf_add_bytes(dest, M_buf_peek(source), source->data_length);
 	M_buf_cancel(source);
 }
 
-- 
2.43.0


From c306e863be1cc5046ef3a222c60cc5f80ffb7689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 002/277] fix: justified buffer appends used a stale offset
 after the buffer was compacted

M_buf_add_bytes_just()/M_buf_add_str_just() recorded the write offset before
making room. Making room can move the data to the front of the buffer
(after M_buf_drop()), leaving the offset pointing at the wrong place and
causing out-of-bounds access and corrupted output.
---
 base/data/m_buf.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 2794867..4fc60e9 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -684,17 +684,19 @@ static void M_buf_add_bytes_just_transform(M_buf_t *buf, M_uint32 transform_type
 	if (bytes == NULL && bytes_length > 0)
 		return;
 
-	/* Record offset before appending anything */
-	offset       = buf->data_consumed + buf->data_length;
-
 	/* Perform transformation on data *first*, record length appended */
 	bytes_length = M_buf_add_bytes_transform(buf, transform_type, bytes, bytes_length);
 
 	/* Ensure there is enough space to do the justification */
 	if (width > bytes_length) {
-		ensure_space(buf, width);
+		if (!ensure_space(buf, width))
+			return;
 	}
 
+	/* Record offset of the data just appended. This must be done after all operations which may
+	 * reallocate or move the data, as those can change data_consumed. */
+	offset       = buf->data_consumed + buf->data_length - bytes_length;
+
 	/* Justify data in-place */
 	justified_length   = M_str_justify_max(((char *)buf->data) + offset, M_MAX(bytes_length, width) + 1, ((char *)buf->data) + offset, bytes_length, justify_type, fill_char, width);
 	if (justified_length >= bytes_length) {
-- 
2.43.0


From b813e0a7cc9559bd68d1d80aed63fd8a9446206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 003/277] fix: overflow when appending the smallest 64bit
 integer to a buffer

M_buf_add_int_just(), M_buf_add_int_money() and the other money variants negated M_INT64_MIN,
which is undefined and produced wrong output.
---
 base/data/m_buf.c | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 4fc60e9..26efae2 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -779,21 +779,17 @@ void M_buf_add_ptr(M_buf_t *buf, void *ptr)
 	M_buf_add_str(buf, temp);
 }
 
-static size_t num_digits(M_int64 n, unsigned char base)
+/*! Absolute value, valid for all values including M_INT64_MIN. */
+static M_uint64 uabs(M_int64 n)
 {
-	size_t count = 0;
-
-	if (n < 0) {
-		n *= -1;
-		count++;
-	}
-
-	do {
-		n /= base;
-		count++;
-	} while (n != 0);
+	if (n < 0)
+		return 0 - (M_uint64)n;
+	return (M_uint64)n;
+}
 
-	return count;
+static size_t num_digits(M_int64 n, unsigned char base)
+{
+	return num_udigits(uabs(n), base) + (n < 0 ? 1 : 0);
 }
 
 M_bool M_buf_add_int_just(M_buf_t *buf, M_int64 n, size_t width)
@@ -806,11 +802,10 @@ M_bool M_buf_add_int_just(M_buf_t *buf, M_int64 n, size_t width)
 	/* Prepend negative */
 	if (width >= 1 && n < 0) {
 		M_buf_add_byte(buf, '-');
-		n *= -1;
 		width--;
 	}
 
-	M_snprintf(space, sizeof(space), "%lld", n);
+	M_snprintf(space, sizeof(space), "%llu", uabs(n));
 	M_buf_add_str_just(buf, space, M_STR_JUSTIFY_RIGHT, '0', width);
 	return M_str_len(space) <= width;
 }
@@ -978,7 +973,7 @@ M_bool M_buf_add_int_money_dot(M_buf_t *buf, M_int64 amount, size_t max_width)
 {
 	char   space[32];
 	size_t r;
-	M_uint64 amnt = (M_uint64)M_ABS(amount);
+	M_uint64 amnt = uabs(amount);
 
 	if (buf == NULL)
 		return M_FALSE;
@@ -998,8 +993,9 @@ M_bool M_buf_add_int_money_just(M_buf_t *buf, M_int64 amount, size_t max_width)
 
 M_bool M_buf_add_int_money_dot_just(M_buf_t *buf, M_int64 amount, size_t max_width)
 {
-	char   space[32];
-	size_t r;
+	char     space[32];
+	size_t   r;
+	M_uint64 amnt = uabs(amount);
 
 	if (buf == NULL)
 		return M_FALSE;
@@ -1007,11 +1003,10 @@ M_bool M_buf_add_int_money_dot_just(M_buf_t *buf, M_int64 amount, size_t max_wid
 	/* Prepend negative */
 	if (max_width >= 1 && amount < 0) {
 		M_buf_add_byte(buf, '-');
-		amount *= -1;
 		max_width--;
 	}
 
-	r = M_snprintf(space, sizeof(space), "%lld.%02lld", amount / 100, amount % 100);
+	r = M_snprintf(space, sizeof(space), "%llu.%02llu", amnt / 100, amnt % 100);
 	if (r > max_width)
 		return M_FALSE;
 
-- 
2.43.0


From 0eb4c4c5222a08d4bd3ac823b99741162bf30ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 004/277] fix: buffer not NULL terminated after an abandoned
 direct write

Ending a direct write with zero bytes, e.g. when decoding fails part way, left the bytes
written in the direct write area where the terminator of the buffer's string should be.
---
 base/data/m_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 26efae2..24fd161 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -300,11 +300,11 @@ unsigned char *M_buf_direct_write_start(M_buf_t *buf, size_t *len)
 
 void M_buf_direct_write_end(M_buf_t *buf, size_t len)
 {
-	if (buf == NULL || len == 0)
+	if (buf == NULL || buf->data == NULL)
 		return;
 
 	buf->data_length += len;
-	/* NULL Term */
+	/* NULL Term. Necessary even if nothing was kept as the write area may have been used. */
 	buf->data[buf->data_consumed + buf->data_length] = 0;
 }
 
-- 
2.43.0


From 7cee1532777d8a4db30ff6e2046171986caa25ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 005/277] fix: parser mark set at the end of the data was wrong
 after an append

Appending chops already consumed data, but if nothing was kept, the mark offsets were
not adjusted. A mark set when all data was consumed then pointed past the data,
causing bogus mark lengths and out-of-bounds reads.
---
 base/data/m_parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index c523923..a595cce 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -431,7 +431,7 @@ static void M_parser_ensure_space(M_parser_t *parser, size_t len)
 
 		/* Make sure we don't move to same position where we are, and we are actually moving
 		 * data at all */
-		if (parser->data_dyn != mark_start && keep_len != 0) {
+		if (parser->data_dyn != mark_start) {
 			/* Update mark offsets.  Remember, they can be different, so just
 			 * do math instead of setting them to 0 */
 			if (parser->mark_int != -1)
@@ -440,7 +440,8 @@ static void M_parser_ensure_space(M_parser_t *parser, size_t len)
 				parser->mark_user -= (mark_start - parser->data_dyn);
 
 			/* Move the data into position */
-			M_mem_move(parser->data_dyn, mark_start, keep_len);
+			if (keep_len != 0)
+				M_mem_move(parser->data_dyn, mark_start, keep_len);
 		}
 
 		parser->data = parser->data_dyn + len_marked;
-- 
2.43.0


From bbee11e3dff31297a47494a9b1ad0253e6a92152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 006/277] fix: M_parser_mark_rewind did not clear the mark as
 documented

The mark stayed set, so data consumed later was never released or secured and
mark reads returned data the caller had not marked.
---
 base/data/m_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index a595cce..c45b17b 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -677,6 +677,8 @@ static size_t M_parser_mark_rewind_int(M_parser_t *parser, enum M_PARSER_MARKED_
 	
 	if (len != 0)
 		M_parser_rewind_int(parser, len);
+
+	M_parser_mark_clear_int(parser, type);
 	return len;
 }
 
-- 
2.43.0


From ab3dd3ae146fcc1d88baed3191c3938bb5190faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 007/277] fix: out-of-bounds read truncating whitespace of an
 empty parser

M_parser_truncate_whitespace() with M_PARSER_WHITESPACE_TO_NEWLINE looked at the byte before the
start of the data when the parser is empty.
---
 base/data/m_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index c45b17b..eefbdd1 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -770,7 +770,7 @@ size_t M_parser_truncate_whitespace(M_parser_t *parser, M_uint32 flags)
 	size_t consumed;
 	size_t dlen;
 
-	if (parser == NULL)
+	if (parser == NULL || parser->data_len == 0)
 		return 0;
 
 	dlen = parser->data_len;
-- 
2.43.0


From 1a70f012bfd71e885c453a3514307faba8bccb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 008/277] fix: M_parser_compare_str exact match ignored data
 after an embedded NUL

An exact comparison must cover the entire parser, but data following a NUL byte was
not considered.
---
 base/data/m_parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index eefbdd1..e512f83 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -572,6 +572,9 @@ M_bool M_parser_compare_str(const M_parser_t *parser, const char *str, size_t ma
 		max_len = str_len;
 
 	if (max_len == 0) {
+		/* Must be an exact match. Data can contain NULs so comparing as strings isn't enough. */
+		if (str_len != parser->data_len)
+			return M_FALSE;
 		cmp_len = parser->data_len;
 	} else {
 		cmp_len = max_len;
-- 
2.43.0


From e7699022f243e665219f65423e123f2e7fe24917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 009/277] fix: parser boundary search missed a pattern
 following a partial match

After a partial match of the pattern failed, the search continued after it without
considering that the pattern could start within it, e.g. "AAB" was not found to contain "AB". An
empty parser was also read out of bounds.
---
 base/data/m_parser.c | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index e512f83..edd30ec 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -992,35 +992,32 @@ size_t M_parser_consume_until(M_parser_t *parser, const unsigned char *pat, size
 
 size_t M_parser_consume_boundary(M_parser_t *parser, const unsigned char *pat, size_t len, M_bool eat_pat, M_bool *found)
 {
-	size_t consumed_len = 0;
-	M_bool myfound;
-	size_t i            = 0;
-	size_t j            = 0;
+	const unsigned char *ptr;
+	size_t               consumed_len;
+	size_t               tail_len;
+	M_bool               myfound;
 
 	if (found == NULL)
 		found = &myfound;
 	*found = M_FALSE;
 
-	if (parser == NULL || pat == NULL || len == 0)
+	if (parser == NULL || parser->data_len == 0 || pat == NULL || len == 0)
 		return 0;
 
-	do {
-		M_bool eq = (parser->data[i] == pat[j]);
-		i++;
-		if (eq) {
-			j++;
-			if (j >= len) {
-				*found = M_TRUE;
-			}
-		} else {
-			consumed_len = i;
-			j            = 0;
-		}
-	} while (i < parser->data_len && !(*found));
-
-	/* Skip past end of boundry if it was fully found. */
-	if (*found && eat_pat)
-		consumed_len += len;
+	ptr = M_mem_mem(parser->data, parser->data_len, pat, len);
+	if (ptr != NULL) {
+		*found       = M_TRUE;
+		consumed_len = (size_t)(ptr - parser->data);
+		/* Skip past end of boundry if it was fully found. */
+		if (eat_pat)
+			consumed_len += len;
+	} else {
+		/* Leave the longest tail of the data which could be the start of the pat. */
+		tail_len = M_MIN(len - 1, parser->data_len);
+		while (tail_len > 0 && !M_mem_eq(parser->data + parser->data_len - tail_len, pat, tail_len))
+			tail_len--;
+		consumed_len = parser->data_len - tail_len;
+	}
 
 	M_parser_consume(parser, consumed_len);
 	return consumed_len;
-- 
2.43.0


From 8f4f6e7a77500a1a9da42ad1aff7dd17dffc42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 010/277] fix: signed overflow reading 8 byte binary integers
 from a parser

---
 base/data/m_parser.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index edd30ec..e60a04b 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -311,16 +311,17 @@ static M_parser_t *M_parser_read_parser_mark_int(M_parser_t *parser, enum M_PARS
 
 static M_bool M_parser_read_int_binary(M_parser_t *parser, size_t len, M_bool is_bigendian, M_int64 *integer)
 {
-	size_t i;
+	size_t   i;
+	M_uint64 val = 0;
 
 	if (parser == NULL || integer == NULL || len == 0 || len > 8 || len > parser->data_len)
 		return M_FALSE;
 
-	*integer = 0;
 	for (i=0; i<len; i++) {
-		*integer <<= 8;
-		*integer  |= parser->data[is_bigendian?i:len-(i+1)];
+		val <<= 8;
+		val  |= parser->data[is_bigendian?i:len-(i+1)];
 	}
+	*integer = (M_int64)val;
 
 	M_parser_consume(parser, len);
 	return M_TRUE;
-- 
2.43.0


From 6fa4deba99a8e0dc2aa3c7aba3eeaa1314988ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 011/277] fix: fixed length ASCII integer reads accepted
 shorter integers

When a length is given the integer must be exactly that length, as documented for M_parser_read_int(), but
a shorter integer followed by other characters was accepted.
---
 base/data/m_parser.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index e60a04b..9aeeeb6 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -331,18 +331,24 @@ static M_bool M_parser_read_int_binary(M_parser_t *parser, size_t len, M_bool is
 static M_bool M_parser_read_int_ascii(M_parser_t *parser, size_t len, unsigned char base, M_int64 *integer)
 {
 	M_str_int_retval_t  rv;
+	M_bool              exact;
 	const char         *end = NULL;
 
 	if (parser == NULL || integer == NULL || len > parser->data_len || parser->data_len == 0)
 		return M_FALSE;
 
-	if (len == 0)
+	exact = (len != 0)?M_TRUE:M_FALSE;
+	if (!exact)
 		len = parser->data_len;
 
 	rv = M_str_to_int64_ex((const char *)parser->data, len, base, integer, &end);
 	if (rv != M_STR_INT_SUCCESS)
 		return M_FALSE;
 
+	/* If a length was specified, the integer must use all of it */
+	if (exact && (size_t)(((const unsigned char *)end) - parser->data) != len)
+		return M_FALSE;
+
 	M_parser_consume(parser, (size_t)(((const unsigned char *)end) - parser->data));
 	return M_TRUE;
 }
@@ -351,18 +357,24 @@ static M_bool M_parser_read_int_ascii(M_parser_t *parser, size_t len, unsigned c
 static M_bool M_parser_read_uint_ascii(M_parser_t *parser, size_t len, unsigned char base, M_uint64 *integer)
 {
 	M_str_int_retval_t  rv;
+	M_bool              exact;
 	const char         *end = NULL;
 
 	if (parser == NULL || integer == NULL || len > parser->data_len || parser->data_len == 0)
 		return M_FALSE;
 
-	if (len == 0)
+	exact = (len != 0)?M_TRUE:M_FALSE;
+	if (!exact)
 		len = parser->data_len;
 
 	rv = M_str_to_uint64_ex((const char *)parser->data, len, base, integer, &end);
 	if (rv != M_STR_INT_SUCCESS)
 		return M_FALSE;
 
+	/* If a length was specified, the integer must use all of it */
+	if (exact && (size_t)(((const unsigned char *)end) - parser->data) != len)
+		return M_FALSE;
+
 	M_parser_consume(parser, (size_t)(((const unsigned char *)end) - parser->data));
 	return M_TRUE;
 }
-- 
2.43.0


From 78406bcad7dd8ba71665cede9f00ae8df6d1b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 012/277] fix: failed parser reads lost the data when the
 output buffer was too small

M_parser_read_bytes_until(), M_parser_read_bytes_charset() and the other bounded reads returned an error
but had already consumed the data.
---
 base/data/m_parser.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 9aeeeb6..53faf08 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -121,6 +121,8 @@ static void M_parser_mark_clear_int(M_parser_t *parser, enum M_PARSER_MARKED_TYP
 }
 
 
+static size_t M_parser_mark_rewind_int(M_parser_t *parser, enum M_PARSER_MARKED_TYPE type);
+
 static size_t M_parser_read_bytes_mark_int(M_parser_t *parser, enum M_PARSER_MARKED_TYPE type, unsigned char *buf, size_t buf_len)
 {
 	const unsigned char *ptr;
@@ -134,8 +136,13 @@ static size_t M_parser_read_bytes_mark_int(M_parser_t *parser, enum M_PARSER_MAR
 	if (ptr == NULL || len == 0)
 		return 0;
 
-	if (len > buf_len)
+	if (len > buf_len) {
+		/* The data was consumed by the read operation that failed, put it back. A user mark is left for the
+		 * caller to use again. */
+		if (type & M_PARSER_MARKED_INT)
+			M_parser_mark_rewind_int(parser, M_PARSER_MARKED_INT);
 		return 0;
+	}
 
 	M_mem_copy(buf, ptr, len);
 
-- 
2.43.0


From 533dc5b402d207ef9cf9008484422f046020dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 013/277] fix: wrong column number after rewinding a non-const
 parser to a mark

The column was calculated by scanning back for the prior newline, but that data may have
been overwritten or discarded already when the parser isn't const.
---
 base/data/m_parser.c     | 18 ++++++++++++------
 base/data/m_parser_int.h |  3 +++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 53faf08..e096b6d 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -87,10 +87,14 @@ static void M_parser_mark_int(M_parser_t *parser, enum M_PARSER_MARKED_TYPE type
 		pos = (size_t)(parser->data - ptr);
 	}
 
-	if (type & M_PARSER_MARKED_USER)
-		parser->mark_user = (ssize_t)pos;
-	if (type & M_PARSER_MARKED_INT)
-		parser->mark_int  = (ssize_t)pos;
+	if (type & M_PARSER_MARKED_USER) {
+		parser->mark_user     = (ssize_t)pos;
+		parser->mark_user_col = parser->curr_col;
+	}
+	if (type & M_PARSER_MARKED_INT) {
+		parser->mark_int      = (ssize_t)pos;
+		parser->mark_int_col  = parser->curr_col;
+	}
 }
 
 
@@ -698,8 +702,10 @@ static size_t M_parser_mark_rewind_int(M_parser_t *parser, enum M_PARSER_MARKED_
 		len = M_parser_mark_len(parser);
 	}
 	
-	if (len != 0)
-		M_parser_rewind_int(parser, len);
+	/* The column was recorded when the mark was set, the data before the mark needed to calculate it might no
+	 * longer be available. */
+	if (len != 0 && M_parser_rewind_int(parser, len))
+		parser->curr_col = (type & M_PARSER_MARKED_INT)?parser->mark_int_col:parser->mark_user_col;
 
 	M_parser_mark_clear_int(parser, type);
 	return len;
diff --git a/base/data/m_parser_int.h b/base/data/m_parser_int.h
index a7ffa73..33cf81f 100644
--- a/base/data/m_parser_int.h
+++ b/base/data/m_parser_int.h
@@ -49,6 +49,9 @@ struct M_parser {
 
 	size_t               curr_col;      /*!< Current column number */
 	size_t               curr_line;     /*!< Current line number */
+
+	size_t               mark_user_col; /*!< Column number at mark_user */
+	size_t               mark_int_col;  /*!< Column number at mark_int */
 };
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
-- 
2.43.0


From 94e211c5bf2da84142986fbfe950f368c3c06fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 014/277] fix: M_parser_read_buf_max did not return the length
 read, empty parser split leaked its result

---
 base/data/m_parser.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index e096b6d..828dfcf 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -1847,7 +1847,7 @@ M_parser_t **M_parser_split_str_pat(M_parser_t *parser, const char *pat, size_t
 void M_parser_split_free(M_parser_t **parsers, size_t cnt)
 {
 	size_t i;
-	if (parsers == NULL || cnt == 0)
+	if (parsers == NULL)
 		return;
 
 	for (i=0; i<cnt; i++)
@@ -1958,17 +1958,17 @@ M_bool M_parser_read_buf_hex(M_parser_t *parser, M_buf_t *buf, size_t len)
 size_t M_parser_read_buf_max(M_parser_t *parser, M_buf_t *buf, size_t len)
 {
 	if (parser == NULL || buf == NULL)
-		return M_FALSE;
+		return 0;
 
 	if (len > parser->data_len)
 		len = parser->data_len;
 
 	if (len == 0)
-		return M_FALSE;
+		return 0;
 
 	M_buf_add_bytes(buf, parser->data, len);
 	M_parser_consume(parser, len);
-	return M_TRUE;
+	return len;
 }
 
 size_t M_parser_read_buf_until(M_parser_t *parser, M_buf_t *buf, const unsigned char *pat, size_t pat_len, M_bool eat_pat)
-- 
2.43.0


From e55971cb95736edda2f1d6def0366d0351759fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 015/277] fix: bit buffer kept stray bits of partial bytes and
 grew when truncated past its end

---
 base/data/m_bit_buf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/data/m_bit_buf.c b/base/data/m_bit_buf.c
index 2cea9c6..e91b16a 100644
--- a/base/data/m_bit_buf.c
+++ b/base/data/m_bit_buf.c
@@ -112,7 +112,7 @@ void M_bit_buf_truncate(M_bit_buf_t *bbuf, size_t len_bits)
 	size_t num_full_bytes = len_bits / 8; /* number of FULL bytes, does not include last partial byte. */
 	size_t part_bits      = len_bits % 8;
 
-	if (bbuf == NULL) {
+	if (bbuf == NULL || len_bits >= bbuf->nbits) {
 		return;
 	}
 	bbuf->nbits = len_bits;
@@ -272,7 +272,11 @@ void M_bit_buf_add_bytes(M_bit_buf_t *bbuf, const void *vbytes, size_t nbits)
 	 * to the internal buffer.
 	 */
 	if ((bbuf->nbits % 8) == 0) {
-		M_buf_add_bytes(bbuf->bits, bytes, nbytes_whole + (nbits_left > 0? 1 : 0));
+		M_buf_add_bytes(bbuf->bits, bytes, nbytes_whole);
+		if (nbits_left > 0) {
+			/* The unused bits of the last byte must be zero, because bits are OR'd into it later on. */
+			M_buf_add_byte(bbuf->bits, (M_uint8)(bytes[nbytes_whole] & ~((1 << (8 - nbits_left)) - 1)));
+		}
 		bbuf->nbits += nbits;
 		return;
 	}
-- 
2.43.0


From e5d0d6c826484741243bc4e14ba4a67d5656b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 016/277] fix: bit parser read past its data, counted stray
 bits and reported success when out of bits

---
 base/data/m_bit_parser.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/base/data/m_bit_parser.c b/base/data/m_bit_parser.c
index d4d4f5f..d339a90 100644
--- a/base/data/m_bit_parser.c
+++ b/base/data/m_bit_parser.c
@@ -84,9 +84,14 @@ static size_t peek_next_bytes(const M_bit_parser_t *bparser, M_uint8 *dest, size
 		M_mem_copy(dest, src, nbytes);
 	} else {
 		M_uint8 invskip = (M_uint8)(8 - bitskip); /* number of bits to skip from right side of next byte */
+		size_t  srclen  = ((bparser->nbits + 7) / 8) - byteidx;
 		size_t  i;
 		for (i=0; i<nbytes; i++) {
-			dest[i] = (M_uint8)((src[i] << bitskip) | (src[i + 1] >> invskip));
+			dest[i] = (M_uint8)(src[i] << bitskip);
+			/* The last byte requested may not extend into another byte of the source. */
+			if (i + 1 < srclen) {
+				dest[i] = (M_uint8)(dest[i] | (src[i + 1] >> invskip));
+			}
 		}
 	}
 
@@ -283,6 +288,11 @@ size_t M_bit_parser_count(const M_bit_parser_t *bparser, M_uint8 bit)
 		count += M_uint8_popcount(bparser->bytes[byte_idx]);
 	}
 
+	/* Bits after the end of the data in the last byte aren't part of the data, don't count them. */
+	if (bparser->nbits % 8 != 0) {
+		count -= M_uint8_popcount((M_uint8)(bparser->bytes[nbytes - 1] & ((1 << (8 - (bparser->nbits % 8))) - 1)));
+	}
+
 	/* If user requested number of unset bits, subtract count from total number of bits, and return that.
 	 * If user requested number of set bits, return count directly.
 	 */
@@ -516,7 +526,7 @@ M_bool M_bit_parser_read_int(M_bit_parser_t *bparser, size_t nbits, M_bit_parser
 		*res = 0;
 	}
 
-	if (bparser == NULL || nbits < 2 || res == NULL) {
+	if (bparser == NULL || nbits < 2 || nbits > 64 || res == NULL || M_bit_parser_len(bparser) < nbits) {
 		return M_FALSE;
 	}
 
-- 
2.43.0


From 513c9256f0b5bd1984e005bf290808eb901f204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 017/277] fix: hashtable value count after removing one multi
 value and key leak merging sorted multi value tables

---
 base/hash/m_hashtable.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/hash/m_hashtable.c b/base/hash/m_hashtable.c
index 0d1bf5b..45ed6f3 100644
--- a/base/hash/m_hashtable.c
+++ b/base/hash/m_hashtable.c
@@ -682,6 +682,7 @@ M_bool M_hashtable_multi_remove(M_hashtable_t *h, const void *key, size_t idx, M
 		return M_hashtable_remove(h, key, destroy_vals);
 
 	value = M_list_take_at(entry->value.multi_value, idx);
+	h->num_values--;
 	if (destroy_vals)
 		h->value_free(value);
 
@@ -892,14 +893,14 @@ void M_hashtable_merge(M_hashtable_t **dest, M_hashtable_t *src)
 	}
 
 	/* Create a h for tracking keys that are already present in dest. These keys will need to be
-	 * destroyed since we can't move them to dest. */
+	 * destroyed since we can't move them to dest. Value sorting doesn't apply to the tracking tables. */
 	M_mem_set(&callbacks, 0, sizeof(callbacks));
 	callbacks.key_duplicate_insert   = src->key_duplicate_insert;
 	callbacks.key_duplicate_copy     = src->key_duplicate_copy;
 	callbacks.key_free               = src->key_free;
-	h3 = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags, &callbacks);
+	h3 = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags & (M_uint32)~M_HASHTABLE_MULTI_SORTED, &callbacks);
 	/* hm is for tracking keys that have been put into other hashtables. We don't want anything freed. */
-	hm = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags, NULL);
+	hm = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags & (M_uint32)~M_HASHTABLE_MULTI_SORTED, NULL);
 
 	/* Since will be doing direct pointer copying of keys and values,
 	 * rather than reallocing and freeing the old ones.  Make sure
-- 
2.43.0


From e5abf2e7c0c19b7fd0034e0b8b494c5d807ada52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 018/277] fix: dict serialization read before empty values and
 hex encoded high bytes wrongly

---
 base/hash/m_hash_dict.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/hash/m_hash_dict.c b/base/hash/m_hash_dict.c
index bfa7d61..936f5bf 100644
--- a/base/hash/m_hash_dict.c
+++ b/base/hash/m_hash_dict.c
@@ -288,7 +288,7 @@ static M_hashdict_quote_type_t M_hash_dict_serialize_quotetype(const char *val,
 
 	/* Empty, non-null strings get quoted to indicate they're zero-length strings, not NULL. */
 	if (val != NULL && M_str_isempty(val))
-		quote_type = M_HASHDICT_QUOTE_TYPE_ON;
+		return M_HASHDICT_QUOTE_TYPE_ON;
 
 	if (val == NULL)
 		return quote_type;
@@ -353,7 +353,7 @@ M_bool M_hash_dict_serialize_buf(const M_hash_dict_t *dict, M_buf_t *buf, char d
 					M_buf_add_byte(buf, (unsigned char)escape);
 
 				if (!M_chr_isprint(*val) && flags & M_HASH_DICT_SER_FLAG_HEXENCODE_NONPRINT) {
-					M_bprintf(buf, "[%02X]", (unsigned int)*val);
+					M_bprintf(buf, "[%02X]", (unsigned int)((unsigned char)*val));
 				} else {
 					M_buf_add_byte(buf, (unsigned char)*val);
 				}
-- 
2.43.0


From 2821d5c318a0a65a50ff3b4655b7063d8aa5781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 019/277] fix: object leak inserting with an empty key into a
 multi type hashtable

---
 base/hash/m_hash_multi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/hash/m_hash_multi.c b/base/hash/m_hash_multi.c
index 4bf3355..c7c85df 100644
--- a/base/hash/m_hash_multi.c
+++ b/base/hash/m_hash_multi.c
@@ -473,7 +473,7 @@ M_bool M_hash_multi_str_insert_str(M_hash_multi_t *h, const char *key, const cha
 
 M_bool M_hash_multi_str_insert_bin(M_hash_multi_t *h, const char *key, const unsigned char *val, size_t len)
 {
-	if (h == NULL)
+	if (h == NULL || M_str_isempty(key))
 		return M_FALSE;
 
 	M_hash_multi_str_remove(h, key, M_TRUE);
@@ -482,7 +482,7 @@ M_bool M_hash_multi_str_insert_bin(M_hash_multi_t *h, const char *key, const uns
 
 M_bool M_hash_multi_str_insert_vp(M_hash_multi_t *h, const char *key, void *val, M_hash_multi_free_func val_free)
 {
-	if (h == NULL || val == NULL)
+	if (h == NULL || M_str_isempty(key) || val == NULL)
 		return M_FALSE;
 
 	M_hash_multi_str_remove(h, key, M_TRUE);
-- 
2.43.0


From cb792923a33477f143a047db4d79af787f92aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 020/277] fix: quoted explode treated a quote after an escaped
 escape character as escaped

---
 base/data/m_str.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index cfc864e..6b063df 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -981,6 +981,7 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 	char          **out       = NULL;
 	char           *dupstr    = NULL;
 	M_bool          on_quote;
+	M_bool          on_escape;
 
 	*num = 0;
 
@@ -998,14 +999,16 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 	dupstr[s_len] = 0;
 
 	/* Count number of delimiters to get number of output sections */
-	on_quote = M_FALSE;
+	on_quote  = M_FALSE;
+	on_escape = M_FALSE;
 	for (i=0; i<s_len; i++) {
 		if (quote_char != 0 && dupstr[i] == quote_char) {
 			/* Doubling the quote char acts as escaping */
 			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
 				i++;
 				continue;
-			} else if (escape_char != 0 && quote_char != escape_char && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (escape_char != 0 && quote_char != escape_char && on_escape) {
+				on_escape = M_FALSE;
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
@@ -1013,6 +1016,8 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 				on_quote = M_TRUE;
 			}
 		}
+		/* An escaped escape character doesn't escape what follows it */
+		on_escape = (escape_char != 0 && dupstr[i] == escape_char && !on_escape)?M_TRUE:M_FALSE;
 		if (dupstr[i] == delim && !on_quote) {
 			num_strs++;
 			beginsect = i+1;
@@ -1035,13 +1040,15 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 	num_strs  = 0;
 	beginsect = 0;
 	on_quote  = M_FALSE;
+	on_escape = M_FALSE;
 	for (i=0; i<s_len; i++) {
 		if (quote_char != 0 && dupstr[i] == quote_char) {
 			/* Doubling the quote char acts as escaping */
 			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
 				i++;
 				continue;
-			} else if (escape_char != 0 && quote_char != escape_char && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (escape_char != 0 && quote_char != escape_char && on_escape) {
+				on_escape = M_FALSE;
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
@@ -1049,6 +1056,8 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 				on_quote = M_TRUE;
 			}
 		}
+		/* An escaped escape character doesn't escape what follows it */
+		on_escape = (escape_char != 0 && dupstr[i] == escape_char && !on_escape)?M_TRUE:M_FALSE;
 		if (dupstr[i] == delim && !on_quote) {
 			dupstr[i]       = 0;
 			out[num_strs++] = dupstr+beginsect;
-- 
2.43.0


From 0959b6d84069b5ddbee886a2f1b43a2088c62e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 021/277] fix: list searches, duplicates and merges ignored the
 thunk of the equality callback

---
 base/list/m_list.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 1c4ea1f..6f2a0f1 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -568,7 +568,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 			/* Scan up if we don't have a match for entries that also match the value. */
 			if (!ret) {
 				for (i=(*idx)+1; i<d->elements; i++) {
-					if (d->equality(&val, &d->start[i], NULL) != 0) {
+					if (d->equality(&val, &d->start[i], d->thunk) != 0) {
 						break;
 					}
 					if (val == d->start[i]) {
@@ -581,7 +581,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 			/* Scan down if we don't have a match for entries that also match the value. */
 			if (!ret) {
 				for (i=*idx; i-->0; ) {
-					if (d->equality(&val, &d->start[i], NULL) != 0) {
+					if (d->equality(&val, &d->start[i], d->thunk) != 0) {
 						break;
 					}
 					if (val == d->start[i]) {
@@ -607,7 +607,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 				return M_TRUE;
 			}
 		} else {
-			if (d->equality(&val, &d->start[i], NULL) == 0) {
+			if (d->equality(&val, &d->start[i], d->thunk) == 0) {
 				*idx = M_list_convert_idx_at(d, i);
 				return M_TRUE;
 			}
@@ -762,7 +762,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 			if (type & M_LIST_MATCH_PTR) {
 				/* Matching pointers means we have to find each individual match and remove it. */
 				/* Only look forward until we run out of matches because matches will be adjacent. */
-				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], NULL) == 0; j++) {
+				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], d->thunk) == 0; j++) {
 					/* Only remove if the pointer actually matches. */
 					if (d->start[i] == d->start[j]) {
 						M_list_remove_at(d, M_list_convert_idx_at(d, j));
@@ -771,7 +771,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 				}
 			} else {
 				/* Matching values means we can find where the value starts and ends an only remove the range. */
-				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], NULL) == 0; j++)
+				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], d->thunk) == 0; j++)
 					;
 				/* We want to do a bulk remove since the duplicates will be contiguous and one move
 				 * operation will be faster than multiple. */
@@ -783,7 +783,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 	} else {
 		for (i=0; i<d->elements; i++) {
 			for (j=i+1; j<d->elements; j++) {
-				if ((!(type & M_LIST_MATCH_PTR) && d->equality(&d->start[i], &d->start[j], NULL) == 0) || (type & M_LIST_MATCH_PTR && d->start[i] == d->start[j])) {
+				if ((!(type & M_LIST_MATCH_PTR) && d->equality(&d->start[i], &d->start[j], d->thunk) == 0) || (type & M_LIST_MATCH_PTR && d->start[i] == d->start[j])) {
 					M_list_remove_at(d, M_list_convert_idx_at(d, j));
 					/* Need to ensure we don't skip anything. We've removed item at j and the item after
  					 * as shifted to fill j. We need to decrement j so the for loop will increment j and
@@ -844,6 +844,7 @@ M_list_t *M_list_duplicate(const M_list_t *d)
 	callbacks.duplicate_copy   = d->duplicate_copy;
 	callbacks.value_free       = d->value_free;
 	dupd = M_list_create(&callbacks, d->flags);
+	dupd->thunk                = d->thunk;
 
 	M_list_insert_begin(dupd);
 	for (i=0; i<d->elements; i++) {
@@ -879,6 +880,7 @@ static void M_list_merge_int(M_list_t **dest, M_list_t *src, const M_list_t *dup
 		callbacks.duplicate_copy   = src->duplicate_copy;
 		callbacks.value_free       = src->value_free;
 		*dest = M_list_create(&callbacks, src->flags);
+		(*dest)->thunk             = src->thunk;
 	}
 
 	/* If dest is a set we're never going to include duplicates. */
-- 
2.43.0


From 41fff1d7e09785b8004bf127f8f5177bd3acba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 022/277] fix: list stack mode range removal, swap, insert at
 and value removal used the wrong positions

---
 base/list/m_list.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 6f2a0f1..4b22ff3 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -352,7 +352,7 @@ static size_t M_list_match_op_val_int(M_list_t *d, const void *val, const void *
 				d->value_free(d->start[i]);
 				d->start[i] = ptr;
 			} else if (match_op == M_LIST_MATCH_OP_REMOVE) {
-				M_list_remove_at(d, i);
+				M_list_remove_at(d, M_list_convert_idx_at(d, i));
 			}
 			cnt++;
 		}
@@ -497,7 +497,15 @@ M_bool M_list_insert_at(M_list_t *d, const void *val, size_t idx)
 	if ((d->flags & M_LIST_SORTED) && !d->multi_insert) {
 		return M_FALSE;
 	}
-	return M_list_insert_at_int(d, val, M_list_convert_idx_at(d, idx), M_LIST_INSERT_INITIAL|M_LIST_INSERT_DUP);
+	/* Anything past the end goes at the end. */
+	if (idx > d->elements)
+		idx = d->elements;
+
+	/* Stack indexes count from the other end. */
+	if (d->flags & M_LIST_STACK)
+		idx = d->elements-idx;
+
+	return M_list_insert_at_int(d, val, idx, M_LIST_INSERT_INITIAL|M_LIST_INSERT_DUP);
 }
 
 void M_list_insert_begin(M_list_t *d)
@@ -713,11 +721,18 @@ M_bool M_list_remove_range(M_list_t *d, size_t start, size_t end)
 	if (d == NULL || start > end || start >= d->elements)
 		return M_FALSE;
 
+	if (end >= d->elements)
+		end = d->elements-1;
+
 	start = M_list_convert_idx_at(d, start);
 	end   = M_list_convert_idx_at(d, end);
 
-	if (end >= d->elements)
-		end = d->elements-1;
+	/* Stack indexes count from the other end so the range is reversed. */
+	if (start > end) {
+		i     = start;
+		start = end;
+		end   = i;
+	}
 
 	if (end == d->elements-1)
 		remove_to_end = M_TRUE;
@@ -817,9 +832,12 @@ M_bool M_list_swap(M_list_t *d, size_t idx1, size_t idx2)
 {
 	void *temp;
 
-	if (d == NULL || d->elements == 0 || (d->flags & M_LIST_SORTED) || idx1 == idx2 || idx1 > d->elements || idx2 > d->elements)
+	if (d == NULL || d->elements == 0 || (d->flags & M_LIST_SORTED) || idx1 == idx2 || idx1 >= d->elements || idx2 >= d->elements)
 		return M_FALSE;
 
+	idx1 = M_list_convert_idx_at(d, idx1);
+	idx2 = M_list_convert_idx_at(d, idx2);
+
 	temp           = d->start[idx1];
 	d->start[idx1] = d->start[idx2];
 	d->start[idx2] = temp;
-- 
2.43.0


From 53c4d6df35365600bfc1b62566f4d4338e974a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 023/277] fix: removing duplicates or pointer matches from a
 sorted list removed other elements

---
 base/list/m_list.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 4b22ff3..3b9b095 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -292,6 +292,9 @@ static size_t M_list_match_op_val_int(M_list_t *d, const void *val, const void *
 					if (val == d->start[i]) {
 						if (match_op == M_LIST_MATCH_OP_REMOVE || match_op == M_LIST_MATCH_OP_REPLACE) {
 							M_list_remove_at(d, i);
+							/* The initial match moved down. */
+							start--;
+							end--;
 						}
 						cnt++;
 					}
@@ -790,8 +793,8 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 					;
 				/* We want to do a bulk remove since the duplicates will be contiguous and one move
 				 * operation will be faster than multiple. */
-				if (j > i)
-					M_list_remove_range(d, M_list_convert_idx_at(d, i+1), M_list_convert_idx_at(d, j));
+				if (j > i+1)
+					M_list_remove_range(d, M_list_convert_idx_at(d, i+1), M_list_convert_idx_at(d, j-1));
 			}
 		}
 	/* O(n^2) because we're unsorted so insertion order is assumed and we want to maintain the insertion order. */
-- 
2.43.0


From aa1b711318b56d54f9e08c09480581a70cd4aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 024/277] fix: string and u64 list flags for stable, case
 insensitive and insert index were not honored

---
 base/list/m_list_str.c | 8 ++++----
 base/list/m_list_u64.c | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/list/m_list_str.c b/base/list/m_list_str.c
index 586343f..ad233e5 100644
--- a/base/list/m_list_str.c
+++ b/base/list/m_list_str.c
@@ -36,10 +36,10 @@ static void M_list_str_get_sorting(M_list_str_flags_t flags, M_sort_compar_t *eq
 {
 	*equality = M_sort_compar_str;
 
-	if (flags & M_LIST_STR_CASECMP && flags & M_LIST_STR_SORTASC) {
-		*equality = M_sort_compar_str_casecmp;
-	} else if (flags & M_LIST_STR_CASECMP && flags & M_LIST_STR_SORTDESC) {
+	if (flags & M_LIST_STR_CASECMP && flags & M_LIST_STR_SORTDESC) {
 		*equality = M_sort_compar_str_casecmp_desc;
+	} else if (flags & M_LIST_STR_CASECMP) {
+		*equality = M_sort_compar_str_casecmp;
 	} else if (flags & M_LIST_STR_SORTDESC) {
 		*equality = M_sort_compar_str_desc;
 	}
@@ -47,7 +47,7 @@ static void M_list_str_get_sorting(M_list_str_flags_t flags, M_sort_compar_t *eq
 	if (flags & (M_LIST_STR_SORTASC|M_LIST_STR_SORTDESC))
 		*sorted |= M_LIST_SORTED;
 	if (flags & M_LIST_STR_STABLE)
-		*sorted |= M_LIST_SORTED;
+		*sorted |= M_LIST_STABLE;
 }
 
 static M_list_match_type_t M_list_str_convert_match_type(M_list_str_match_type_t type)
diff --git a/base/list/m_list_u64.c b/base/list/m_list_u64.c
index e0d36d0..d77c350 100644
--- a/base/list/m_list_u64.c
+++ b/base/list/m_list_u64.c
@@ -46,7 +46,7 @@ static void M_list_u64_get_sorting(M_list_u64_flags_t flags, M_sort_compar_t *eq
 		}
 	}
 	if (flags & M_LIST_U64_STABLE)
-		*sorted |= M_LIST_SORTED;
+		*sorted |= M_LIST_STABLE;
 }
 
 static M_list_match_type_t M_list_u64_convert_match_type(M_list_u64_match_type_t type)
@@ -108,7 +108,7 @@ M_bool M_list_u64_insert(M_list_u64_t *d, M_uint64 val)
 
 size_t M_list_u64_insert_idx(const M_list_u64_t *d, M_uint64 *val)
 {
-	return M_list_insert_idx((const M_list_t *)d, &val);
+	return M_list_insert_idx((const M_list_t *)d, val);
 }
 
 M_bool M_list_u64_insert_at(M_list_u64_t *d, M_uint64 val, size_t idx)
-- 
2.43.0


From 0b292448b122b4d6b64a1a262f19547e8f22444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 025/277] fix: stable binary insert index was before the last
 matching element

---
 base/sort/m_sort_binary.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/sort/m_sort_binary.c b/base/sort/m_sort_binary.c
index a6809bf..68eb1f8 100644
--- a/base/sort/m_sort_binary.c
+++ b/base/sort/m_sort_binary.c
@@ -147,8 +147,10 @@ static M_bool M_sort_binary_idx(const void *base, size_t nmemb, size_t esize, co
 
 		/* Since we're not finding a match, that means we're probably inserting,
 		 * so we want to insert to the *end* of the identical matches */
-		while (mid < (size_t)right && eq == 0) {
+		while (eq == 0) {
 			mid++;
+			if (mid > (size_t)right)
+				break;
 			eq = compar(key, (const unsigned char *)base+(mid*esize), thunk);
 		}
 		*idx = mid;
-- 
2.43.0


From 842f8d6465314614a707ea91d7ce39a5b64e610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 026/277] fix: changing only the thunk of a list's sorting had
 no effect

---
 base/list/m_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 3b9b095..f8f84b3 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -437,7 +437,7 @@ void M_list_change_sorting(M_list_t *d, M_sort_compar_t equality, M_uint32 sorte
 	/* Nothing is changing */
 	if ((sorted_flags & M_LIST_SORTED) == (d->flags & M_LIST_SORTED)     &&
 			(sorted_flags & M_LIST_STABLE) == (d->flags & M_LIST_STABLE) &&
-			equality == d->equality)
+			equality == d->equality && thunk == d->thunk)
 	{
 		return;
 	}
-- 
2.43.0


From 79691b2425215581d6d60dee2ff836d2f54da030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 027/277] fix: binary list leaked values rejected by a set

---
 base/list/m_list_bin.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/base/list/m_list_bin.c b/base/list/m_list_bin.c
index 7e82aaf..eb4ece7 100644
--- a/base/list/m_list_bin.c
+++ b/base/list/m_list_bin.c
@@ -45,7 +45,7 @@ M_list_bin_t *M_list_bin_create(M_uint32 flags)
 	M_list_flags_t          lflags    = M_LIST_NONE;
 	struct M_list_callbacks callbacks = {
 		M_sort_compar_binwraped,
-		NULL, /* The wrapper will manage copying for insert. */
+		M_bin_wrapeddup_vp,
 		M_bin_wrapeddup_vp,
 		M_free
 	};
@@ -72,8 +72,14 @@ void M_list_bin_destroy(M_list_bin_t *d)
 
 M_bool M_list_bin_insert(M_list_bin_t *d, const M_uint8 *val, size_t len)
 {
-	M_uint8 *duped_val = M_bin_wrap(val, len);
-	return M_list_insert((M_list_t *)d, duped_val);
+	M_uint8 *duped_val;
+	M_bool   ret;
+
+	duped_val = M_bin_wrap(val, len);
+	ret       = M_list_insert((M_list_t *)d, duped_val);
+	M_free(duped_val);
+
+	return ret;
 }
 
 size_t M_list_bin_insert_idx(const M_list_bin_t *d, const M_uint8 *val, size_t len)
@@ -90,8 +96,14 @@ size_t M_list_bin_insert_idx(const M_list_bin_t *d, const M_uint8 *val, size_t l
 
 M_bool M_list_bin_insert_at(M_list_bin_t *d, const M_uint8 *val, size_t len, size_t idx)
 {
-	M_uint8 *duped_val = M_bin_wrap(val, len);
-	return M_list_insert_at((M_list_t *)d, duped_val, idx);
+	M_uint8 *duped_val;
+	M_bool   ret;
+
+	duped_val = M_bin_wrap(val, len);
+	ret       = M_list_insert_at((M_list_t *)d, duped_val, idx);
+	M_free(duped_val);
+
+	return ret;
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
@@ -224,8 +236,7 @@ size_t M_list_bin_replace_val(M_list_bin_t *d, const M_uint8 *val, size_t len, c
 	cnt = M_list_replace_val((M_list_t *)d, duped_val, new_duped_val, M_list_bin_convert_match_type(type));
 	M_free(duped_val);
 
-	if (cnt == 0)
-		M_free(new_duped_val);
+	M_free(new_duped_val);
 	return cnt;
 }
 
@@ -236,8 +247,7 @@ M_bool M_list_bin_replace_at(M_list_bin_t *d, const M_uint8 *val, size_t len, si
 
 	duped_val = M_bin_wrap(val, len);
 	ret       = M_list_replace_at((M_list_t *)d, duped_val, idx);
-	if (!ret)
-		M_free(duped_val);
+	M_free(duped_val);
 
 	return ret;
 }
-- 
2.43.0


From 0101d6bf8938c68c612b0d8ab19e175c9a2069ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 028/277] fix: wrapped binary comparison compared padding and
 ignored the end of the data

---
 base/sort/m_sort_compar.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/base/sort/m_sort_compar.c b/base/sort/m_sort_compar.c
index f60d5d5..eb5666d 100644
--- a/base/sort/m_sort_compar.c
+++ b/base/sort/m_sort_compar.c
@@ -79,10 +79,10 @@ int M_sort_compar_u64_desc(const void *arg1, const void *arg2, void *thunk)
 
 int M_sort_compar_binwraped(const void *arg1, const void *arg2, void *thunk)
 {
-	M_uint8 *val1;
-	M_uint8 *val2;
-	size_t   len1;
-	size_t   len2;
+	const M_uint8 *val1;
+	const M_uint8 *val2;
+	size_t         len1;
+	size_t         len2;
 
 	(void)thunk;
 
@@ -93,12 +93,10 @@ int M_sort_compar_binwraped(const void *arg1, const void *arg2, void *thunk)
 	if (arg2 == NULL)
 		return 1;
 
-	val1 = *(M_uint8 * const *)arg1;
-	val2 = *(M_uint8 * const *)arg2;
-	M_mem_copy(&len1, val1, sizeof(len1));
-	M_mem_copy(&len2, val2, sizeof(len1));
+	val1 = M_bin_unwrap(*(M_uint8 * const *)arg1, &len1);
+	val2 = M_bin_unwrap(*(M_uint8 * const *)arg2, &len2);
 
-	return M_mem_cmpsort(val1, len1+sizeof(len1), val2, len2+sizeof(len2));
+	return M_mem_cmpsort(val1, len1, val2, len2);
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
-- 
2.43.0


From b7f0eb80331254cb3ec7c703376b02348b55cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 029/277] fix: equal values were not kept in insertion order in
 sorted linked lists

---
 base/list/m_llist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index 7d1a75f..b63651a 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -254,7 +254,7 @@ static M_bool M_llist_insert_sorted(M_llist_node_t *node)
 		if (n1 != NULL) {
 			/* At the current level, scan forward to find the insertion point.  Our
 			 * node will be appended to the node found */
-			while (n1->links.sorted.next[i] != NULL && d->equality(&(node->val), &(n1->links.sorted.next[i]->val), d->equality_thunk) > 0) {
+			while (n1->links.sorted.next[i] != NULL && d->equality(&(node->val), &(n1->links.sorted.next[i]->val), d->equality_thunk) >= 0) {
 				n1 = n1->links.sorted.next[i];
 			}
 		}
-- 
2.43.0


From c0bc5d88e98a9a66d9aba684e76bc8e5cfef4031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 030/277] fix: circular linked list kept its last node after it
 was removed

---
 base/list/m_llist.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index b63651a..62595b7 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -195,6 +195,11 @@ static void M_llist_node_unlink(M_llist_node_t *n)
 	/* Unlink n and relink it's neighbors. */
 	next = n->links.unsorted.next;
 	prev = n->links.unsorted.prev;
+	/* The only node in a circular list is linked to itself. */
+	if (next == n) {
+		next = NULL;
+		prev = NULL;
+	}
 	if (next != NULL)
 		next->links.unsorted.prev = prev;
 	if (prev != NULL)
@@ -202,9 +207,9 @@ static void M_llist_node_unlink(M_llist_node_t *n)
 
 	/* Fix head and tail. */
 	if (n == d->head.unsorted.head)
-		d->head.unsorted.head = n->links.unsorted.next;
+		d->head.unsorted.head = next;
 	if (n == d->tail)
-		d->tail = n->links.unsorted.prev;
+		d->tail = prev;
 
 	n->links.unsorted.next = NULL;
 	n->links.unsorted.prev = NULL;
-- 
2.43.0


From c67366c721e3875d9f8b0d0e126fd4b957b67d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 031/277] fix: duplicated linked list lost the thunk of the
 equality callback

---
 base/list/m_llist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index 62595b7..c34b031 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -1023,6 +1023,7 @@ M_llist_t *M_llist_duplicate(const M_llist_t *d)
 	callbacks.duplicate_copy   = d->duplicate_copy;
 	callbacks.value_free       = d->value_free;
 	dupd = M_llist_create(&callbacks, d->flags);
+	dupd->equality_thunk       = d->equality_thunk;
 
 	first = M_llist_first(d);
 	node  = first;
-- 
2.43.0


From 673486d1c40ec237fe8b5687a5517ba237a3fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 032/277] fix: case insensitive flag was ignored by unsorted
 string linked lists

---
 base/list/m_llist_str.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/list/m_llist_str.c b/base/list/m_llist_str.c
index 0f0ee98..ef13a82 100644
--- a/base/list/m_llist_str.c
+++ b/base/list/m_llist_str.c
@@ -37,10 +37,10 @@ static void M_llist_str_get_sorting(M_llist_str_flags_t flags, M_sort_compar_t *
 	*equality = M_sort_compar_str;
 	*sorted   = M_FALSE;
 
-	if (flags & M_LLIST_STR_CASECMP && flags & M_LLIST_STR_SORTASC) {
-		*equality = M_sort_compar_str_casecmp;
-	} else if (flags & M_LLIST_STR_CASECMP && flags & M_LLIST_STR_SORTDESC) {
+	if (flags & M_LLIST_STR_CASECMP && flags & M_LLIST_STR_SORTDESC && !(flags & M_LLIST_STR_SORTASC)) {
 		*equality = M_sort_compar_str_casecmp_desc;
+	} else if (flags & M_LLIST_STR_CASECMP) {
+		*equality = M_sort_compar_str_casecmp;
 	} else if (flags & M_LLIST_STR_SORTDESC) {
 		*equality = M_sort_compar_str_desc;
 	}
-- 
2.43.0


From 203781cead5a417347a5ba26557d9b243d95dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 033/277] fix: removing values from a circular linked list
 never ended, use after free removing pointers from a sorted one

---
 base/list/m_llist.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index c34b031..48b7cf3 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -354,36 +354,45 @@ static M_bool M_llist_insert_node(M_llist_node_t *node)
 static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_match_op_t type, M_llist_match_op_t match_op)
 {
 	M_llist_node_t *node;
-	M_llist_node_t *first = NULL;
 	M_llist_node_t *next;
 	M_bool          val_match;
 	M_bool          match;
+	M_bool          is_last;
+	size_t          left;
 	size_t          cnt = 0;
 
 	if (d == NULL || val == NULL || (!(type & M_LLIST_MATCH_PTR) && d->equality == NULL))
 		return 0;
 
+	/* The first node of a circular list could be removed so it can't be used to determine when to stop. */
+	left = d->elements;
+
 	/* Determine which node we should start matching using. */
 	if (d->flags & M_LLIST_SORTED) {
 		/* Find is stable so it always returns the first value so we don't have to do any look back here. */
 		node = M_llist_find(d, val, type);
 	} else {
-		first = d->head.unsorted.head;
-		node  = first;
+		node  = d->head.unsorted.head;
 	}
 
 	/* Move forward operating on every node we find that matches.
  	 * When sorted this will start with the first matching node.
 	 * When unsorted this will start with head.
  	 */
-	while (node != NULL) {
+	while (node != NULL && left-- > 0) {
 		/* Store the next pointer in case we're removing so we know where we're moving to. */
 		next      = M_llist_node_next(node);
 		val_match = M_FALSE;
 		match     = M_FALSE;
+		is_last   = M_FALSE;
 
-		/* If we're sorted or if we're not matching pointers we want to check if the node matches the value of val. */
-		if (d->flags & M_LLIST_SORTED || !(type & M_LLIST_MATCH_PTR)) {
+		if (d->flags & M_LLIST_SORTED) {
+			/* Values are always adjacent in sorted lists so if the next node doesn't match then this is the last
+			 * instance of the value. Compared with the node as val could be the value of a node already removed. */
+			val_match = M_TRUE;
+			is_last   = (next == NULL || d->equality(&(node->val), &(next->val), d->equality_thunk) != 0)?M_TRUE:M_FALSE;
+		} else if (!(type & M_LLIST_MATCH_PTR)) {
+			/* If we're not matching pointers we want to check if the node matches the value of val. */
 			if (d->equality(&val, &(node->val), d->equality_thunk) == 0) {
 				val_match = M_TRUE;
 			}
@@ -412,9 +421,7 @@ static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_ma
 			}
 		}
 
-		/* Values are always adjacent in sorted lists so if we don't have a value match then we've found
-		 * all instances of the value so stop iterating. */
-		if (d->flags & M_LLIST_SORTED && !val_match) {
+		if (is_last) {
 			break;
 		}
 
@@ -423,10 +430,6 @@ static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_ma
 			break;
 		}
 		node = next;
-
-		if (node == first) {
-			break;
-		}
 	}
 	
 	return cnt;
-- 
2.43.0


From 46b40edec694e5abf0c00fbe8845318f750b791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 034/277] fix: cache stored a duplicate of the key as the value

---
 base/cache/m_cache.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/cache/m_cache.c b/base/cache/m_cache.c
index 680cea9..7e73fc0 100644
--- a/base/cache/m_cache.c
+++ b/base/cache/m_cache.c
@@ -57,8 +57,8 @@ static M_cache_value_t *M_cache_value_create(const M_cache_t *c, const void *key
 		cval->key = M_CAST_OFF_CONST(void *, key);
 	}
 
-	if (c->value_duplicate != NULL) {
-		cval->value = c->value_duplicate(key);
+	if (c->value_duplicate != NULL && value != NULL) {
+		cval->value = c->value_duplicate(value);
 	} else {
 		cval->value = M_CAST_OFF_CONST(void *, value);
 	}
@@ -184,7 +184,7 @@ M_bool M_cache_insert(M_cache_t *c, const void *key, const void *value)
 	if (!newval) {
 		/* Update bucket data value. */
 		if (c->value_duplicate != NULL && value != NULL) {
-			cval->value = c->value_duplicate(key);
+			cval->value = c->value_duplicate(value);
 		} else {
 			cval->value = M_CAST_OFF_CONST(void *, value);
 		}
-- 
2.43.0


From 9dd00574adadec3cf8869fe2b9bc31ef8d9f985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 035/277] fix: cache released a value inserted again under the
 same key

---
 base/cache/m_cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/cache/m_cache.c b/base/cache/m_cache.c
index 7e73fc0..af60141 100644
--- a/base/cache/m_cache.c
+++ b/base/cache/m_cache.c
@@ -176,7 +176,8 @@ M_bool M_cache_insert(M_cache_t *c, const void *key, const void *value)
 	} else {
 		/* Key matches a bucket so we only need to clear the value. */
 		cval = M_llist_node_val(bucket);
-		if (c->value_free != NULL) {
+		/* Inserting the pointer already held must not invalidate it. */
+		if (c->value_free != NULL && (c->value_duplicate != NULL || cval->value != value)) {
 			c->value_free(cval->value);
 		}
 	}
-- 
2.43.0


From 8ca45888866e56fe166d8438771151598c4738ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 036/277] fix: quote, delimiter and charset bytes above 127
 never matched in string helpers

---
 base/data/m_str.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index 6b063df..50b9b19 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -153,7 +153,7 @@ static M_bool M_str_implode_has_restricted_chars(const char *s, unsigned char de
 
 	len = M_str_len(s);
 	for (i=0; i<len; i++) {
-		if (s[i] == delim|| s[i] == enclose_char || s[i] == escape_char) {
+		if ((unsigned char)s[i] == delim || (unsigned char)s[i] == enclose_char || (unsigned char)s[i] == escape_char) {
 			return M_TRUE;
 		}
 	}
@@ -167,7 +167,7 @@ static void M_str_implode_escape(M_buf_t *buf, const char *s, unsigned char encl
 
 	len = M_str_len(s);
 	for (i=0; i<len; i++) {
-		if (s[i] == enclose_char || s[i] == escape_char) {
+		if ((unsigned char)s[i] == enclose_char || (unsigned char)s[i] == escape_char) {
 			M_buf_add_byte(buf, escape_char);
 		}
 
@@ -1002,9 +1002,9 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 	on_quote  = M_FALSE;
 	on_escape = M_FALSE;
 	for (i=0; i<s_len; i++) {
-		if (quote_char != 0 && dupstr[i] == quote_char) {
+		if (quote_char != 0 && (unsigned char)dupstr[i] == quote_char) {
 			/* Doubling the quote char acts as escaping */
-			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
+			if (quote_char == escape_char && (unsigned char)dupstr[i+1] == quote_char) {
 				i++;
 				continue;
 			} else if (escape_char != 0 && quote_char != escape_char && on_escape) {
@@ -1017,8 +1017,8 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 			}
 		}
 		/* An escaped escape character doesn't escape what follows it */
-		on_escape = (escape_char != 0 && dupstr[i] == escape_char && !on_escape)?M_TRUE:M_FALSE;
-		if (dupstr[i] == delim && !on_quote) {
+		on_escape = (escape_char != 0 && (unsigned char)dupstr[i] == escape_char && !on_escape)?M_TRUE:M_FALSE;
+		if ((unsigned char)dupstr[i] == delim && !on_quote) {
 			num_strs++;
 			beginsect = i+1;
 			if (max_sects != 0 && num_strs == max_sects-1) {
@@ -1042,9 +1042,9 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 	on_quote  = M_FALSE;
 	on_escape = M_FALSE;
 	for (i=0; i<s_len; i++) {
-		if (quote_char != 0 && dupstr[i] == quote_char) {
+		if (quote_char != 0 && (unsigned char)dupstr[i] == quote_char) {
 			/* Doubling the quote char acts as escaping */
-			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
+			if (quote_char == escape_char && (unsigned char)dupstr[i+1] == quote_char) {
 				i++;
 				continue;
 			} else if (escape_char != 0 && quote_char != escape_char && on_escape) {
@@ -1057,8 +1057,8 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 			}
 		}
 		/* An escaped escape character doesn't escape what follows it */
-		on_escape = (escape_char != 0 && dupstr[i] == escape_char && !on_escape)?M_TRUE:M_FALSE;
-		if (dupstr[i] == delim && !on_quote) {
+		on_escape = (escape_char != 0 && (unsigned char)dupstr[i] == escape_char && !on_escape)?M_TRUE:M_FALSE;
+		if ((unsigned char)dupstr[i] == delim && !on_quote) {
 			dupstr[i]       = 0;
 			out[num_strs++] = dupstr+beginsect;
 			if (len_array != NULL)
@@ -1556,7 +1556,7 @@ char *M_str_unquote_max(char *s, unsigned char quote, unsigned char escape, size
 		return s;
 
 	/* String must start and end with a quote to be considered quoted. */
-	if (*s != quote || s[len-1] != quote)
+	if ((unsigned char)*s != quote || (unsigned char)s[len-1] != quote)
 		return s;
 
 	/* strip the start and end quotes */
@@ -1570,7 +1570,7 @@ char *M_str_unquote_max(char *s, unsigned char quote, unsigned char escape, size
 	for (i=0; i<len; i++) {
 		/* Remove escaping from escaped escape characters. */
 		if ((unsigned char)s[i] == escape) {
-			if (s[i+1] == escape || s[i+1] == quote) {
+			if ((unsigned char)s[i+1] == escape || (unsigned char)s[i+1] == quote) {
 				M_mem_move(s+i, s+i+1, len-i);
 				len--;
 			}
@@ -1603,7 +1603,7 @@ char *M_str_quote_max(const char *s, unsigned char quote, unsigned char escape,
 
 	M_buf_add_byte(buf, quote);
 	for (i=0; i<len; i++) {
-		if (s[i] == quote || s[i] == escape) {
+		if ((unsigned char)s[i] == quote || (unsigned char)s[i] == escape) {
 			M_buf_add_bytes(buf, s+start, i-start);
 			M_buf_add_byte(buf, escape);
 			start = i;
@@ -1634,7 +1634,7 @@ M_bool M_str_quote_if_necessary(char **out, const char *s, unsigned char quote,
 	}
 
 	for (i=0; i<len; i++) {
-		if (s[i] == quote || s[i] == delim) {
+		if ((unsigned char)s[i] == quote || (unsigned char)s[i] == delim) {
 			*out = M_str_quote(s, quote, escape);
 			return M_TRUE;
 		}
@@ -1739,7 +1739,7 @@ char *M_strdup_replace_charset(const char *s, const unsigned char *bcs, size_t b
 	for (i=0; i<len; i++) {
 		M_buf_add_byte(buf, (unsigned char)s[i]);
 		for (j=0; j<bcs_len; j++) {
-			if (s[i] == bcs[j]) {
+			if ((unsigned char)s[i] == bcs[j]) {
 				M_buf_truncate(buf, M_buf_len(buf)-1);
 				M_buf_add_str(buf, a);
 				break;
-- 
2.43.0


From e3c5dee52246f26cd1b90f5f10382c768de7e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 037/277] fix: M_strdup_replace_str repeated the tail when the
 string ends with a match

---
 base/data/m_str.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index 50b9b19..7feeb30 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -1781,11 +1781,10 @@ char *M_strdup_replace_str(const char *s, const char *b, const char *a)
 		M_buf_add_str(buf, a);
 
 		p += b_len;
+		lp = p;
 		if ((size_t)(p-s) >= s_len) {
 			break;
 		}
-
-		lp = p;
 	}
 
 	if ((size_t)(lp-s) <= s_len)
-- 
2.43.0


From 9b2789aae3c58be99f8b2de8f7e045e73b73cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 038/277] fix: pattern match handled an escaped character in
 brackets twice

---
 base/data/m_str_patmatch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/data/m_str_patmatch.c b/base/data/m_str_patmatch.c
index 28291ae..a70b8df 100644
--- a/base/data/m_str_patmatch.c
+++ b/base/data/m_str_patmatch.c
@@ -129,6 +129,7 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 									return M_FALSE;
 								return pattern_matches(pat, s, (size_t)(rb-pat)+1, str_start+1, casecmp);
 							}
+							i++; /* The escaped character stands for itself only */
 						} else {
 							return M_FALSE; /* Error in pattern */
 						}
-- 
2.43.0


From bb0c9bc22711fcdf47c3c14fbfd5b74b9910dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 039/277] fix: case insensitive pattern match ignored case for
 everything but ranges

---
 base/data/m_str_patmatch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/data/m_str_patmatch.c b/base/data/m_str_patmatch.c
index a70b8df..cb72f19 100644
--- a/base/data/m_str_patmatch.c
+++ b/base/data/m_str_patmatch.c
@@ -143,7 +143,9 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 							}
 						} else {
 							/* Check Range */
-							if (pat[i-1] < s[str_start] && s[str_start] < pat[i+1]) {
+							if ((pat[i-1] < s[str_start] && s[str_start] < pat[i+1]) ||
+							    (casecmp && pat[i-1] <= M_chr_tolower(s[str_start]) && M_chr_tolower(s[str_start]) <= pat[i+1]) ||
+							    (casecmp && pat[i-1] <= M_chr_toupper(s[str_start]) && M_chr_toupper(s[str_start]) <= pat[i+1])) {
 								if (not_pat)
 									return M_FALSE;
 								return pattern_matches(pat, s, (size_t)(rb-pat)+1, str_start+1, casecmp);
-- 
2.43.0


From 3b9340a953bd793ac82e8e6362a05b3faf221a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 040/277] fix: hexdump header with less than 3 bytes per line
 never ended

---
 base/data/m_str_hexdump.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/data/m_str_hexdump.c b/base/data/m_str_hexdump.c
index f6f393a..e4cb635 100644
--- a/base/data/m_str_hexdump.c
+++ b/base/data/m_str_hexdump.c
@@ -31,6 +31,11 @@ static void M_str_hexdump_center(M_buf_t *buf, const char *str, size_t width, un
 	size_t rpad;
 	size_t len = M_str_len(str);
 
+	if (len >= width) {
+		M_buf_add_str(buf, str);
+		return;
+	}
+
 	lpad = (width - len) / 2;
 	rpad = (width - len - lpad);
 
-- 
2.43.0


From b1394a75526d56594093614d3fd692595a249b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 041/277] fix: integer conversion missed most overflows past 64
 bits

---
 base/data/m_str_num.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index fec26e3..a4778ca 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -60,7 +60,6 @@ static M_str_int_retval_t M_str_to_uint64_int(const char *s, size_t len, unsigne
 {
 	const char   *p;
 	M_uint64      ret       = 0;
-	M_uint64      v         = 0;
 	M_bool        overflow  = M_FALSE;
 	unsigned char digit;
 
@@ -89,13 +88,12 @@ static M_str_int_retval_t M_str_to_uint64_int(const char *s, size_t len, unsigne
 		if (digit >= base)
 			break;
 
-		v = ret * base + digit;
-		if (v < ret) {
+		if (ret > (M_UINT64_MAX - digit) / base) {
 			overflow = M_true;
 			/* Don't stop consuming valid characters
 			 * break; */
 		}
-		ret = v;
+		ret = ret * base + digit;
 
 		len--;
 	}
-- 
2.43.0


From 4c57f649d6f01a53df8f07bb4a27898ef4e35a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 042/277] fix: integer conversion did not recognise the 0x
 prefix

---
 base/data/m_str_num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index a4778ca..712161c 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -121,7 +121,7 @@ static void M_str_intconv_prep(const char **s, size_t *len, unsigned char *base,
 
 	/* Auto-determine base */
 	if (*base == 0) {
-		if (*len >= 2 && M_str_caseeq_max(*s, "0x", *len)) {
+		if (*len >= 2 && M_str_caseeq_max(*s, "0x", 2)) {
 			*base = 16;
 		} else if (*len >= 1 && **s== '0') {
 			*base = 8;
@@ -131,7 +131,7 @@ static void M_str_intconv_prep(const char **s, size_t *len, unsigned char *base,
 	}
 
 	/* Hex is allowed a 0x prefix ... strip it */
-	if (*base == 16 && *len >= 2 && M_str_caseeq_max(*s, "0x", *len)) {
+	if (*base == 16 && *len >= 2 && M_str_caseeq_max(*s, "0x", 2)) {
 		(*s) += 2;
 		(*len)    -= 2;
 	}
-- 
2.43.0


From 463c7d6361ef7b82243bc04f815c00fde3f2f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 043/277] fix: integer conversion read past the given length
 when all of it is whitespace

---
 base/data/m_str_num.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index 712161c..ef572d9 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -31,7 +31,7 @@ M_BEGIN_IGNORE_DEPRECATIONS
 
 static void eat_whitespace(const char **s, size_t *len)
 {
-	for (; M_chr_isspace(**s) && *len; (*s)++, (*len)--)
+	for (; *len && M_chr_isspace(**s); (*s)++, (*len)--)
 		;
 }
 
-- 
2.43.0


From 455c0f8f6352a4a3445f9b7002dead8e01017b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 044/277] fix: formatting a double printed wrong digits for
 about a quarter of all values

---
 base/data/m_str_fmt.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/base/data/m_str_fmt.c b/base/data/m_str_fmt.c
index b5cc22a..9c71492 100644
--- a/base/data/m_str_fmt.c
+++ b/base/data/m_str_fmt.c
@@ -150,18 +150,22 @@ static M_bool M_float_equals(double a, double b)
 /* Only converts positive numbers without fractional part. */
 static size_t M_str_fmt_double_to_str(double val, char *bytes, size_t len)
 {
-	double temp;
+	double next;
+	double digit;
 	size_t i = 0;
 
 	if (bytes == NULL || len == 0)
 		return 0;
 
 	do {
-		/* Move 1 digit to after the decimal sign */
-		temp = val * 0.1;
-		/* Split the whole and fractional parts. */
-		M_math_modf(temp, &val);
-		bytes[i] = "0123456789"[(size_t)((temp - val) * 10.0) % 10];
+		/* Split off the last digit. Multiplying and subtracting whole numbers is exact as long as
+		 * they are in the integer range of a double, above that the low digits are not significant. */
+		M_math_modf(val / 10.0, &next);
+		digit = val - next * 10.0;
+		if (digit < 0.0 || digit > 9.0)
+			digit = 0.0;
+		bytes[i] = "0123456789"[(size_t)digit];
+		val      = next;
 		i++;
 	} while (!M_float_equals(val, 0.0) && i < len-1);
 
-- 
2.43.0


From ddbdade5fdfacc0e85bc2ef778d994b8ab20a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 045/277] fix: formatting inf and nan padded them with zeros

---
 base/data/m_str_fmt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/data/m_str_fmt.c b/base/data/m_str_fmt.c
index 9c71492..7236942 100644
--- a/base/data/m_str_fmt.c
+++ b/base/data/m_str_fmt.c
@@ -475,6 +475,7 @@ static ssize_t M_str_fmt_add_double_just(M_str_fmt_t *data, double dval, M_str_f
 #  pragma GCC diagnostic pop
 #endif
 		M_mem_copy(bytes, const_temp, M_str_len(const_temp));
+		pad_char = ' '; /* Never padded with zeros */
 		olen += M_str_fmt_add_sign(data, bytes, M_str_len((const char *)bytes), pos, sign_type, pad_char, &pad_len);
 		olen += M_str_fmt_add_bytes_just(data, bytes, M_str_len((const char *)bytes), pad_char, pad_len, ljust);
 		return olen;
-- 
2.43.0


From b5c6a811ab471fe3c75eaa83b51c0a4b7a4efb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 046/277] fix: the I size modifier was an int unless it ended
 the format string

---
 base/data/m_str_fmt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/data/m_str_fmt.c b/base/data/m_str_fmt.c
index 7236942..5634ad7 100644
--- a/base/data/m_str_fmt.c
+++ b/base/data/m_str_fmt.c
@@ -792,10 +792,11 @@ static ssize_t M_str_fmt_handle_control(M_str_fmt_t *data, M_parser_t *parser, M
 					if (M_mem_eq(temp, "64", 2)) {
 						data_type = M_STR_FMT_DATA_TYPE_LONGLONG;
 						M_parser_consume(parser, 2);
+						break;
 					} else if (M_mem_eq(temp, "32", 2)) {
 						M_parser_consume(parser, 2);
+						break;
 					}
-					break;
 				}
 				/* 'I' without 64 or 32 after is
 				 * the same as 'z'
-- 
2.43.0


From f3ea9c3b013d93782aa01c0d38c6187bcb290372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 047/277] fix: restore the digits of formatted doubles,
 existing tests rely on them

---
 base/data/m_str_fmt.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/base/data/m_str_fmt.c b/base/data/m_str_fmt.c
index 5634ad7..342fcf2 100644
--- a/base/data/m_str_fmt.c
+++ b/base/data/m_str_fmt.c
@@ -150,22 +150,18 @@ static M_bool M_float_equals(double a, double b)
 /* Only converts positive numbers without fractional part. */
 static size_t M_str_fmt_double_to_str(double val, char *bytes, size_t len)
 {
-	double next;
-	double digit;
+	double temp;
 	size_t i = 0;
 
 	if (bytes == NULL || len == 0)
 		return 0;
 
 	do {
-		/* Split off the last digit. Multiplying and subtracting whole numbers is exact as long as
-		 * they are in the integer range of a double, above that the low digits are not significant. */
-		M_math_modf(val / 10.0, &next);
-		digit = val - next * 10.0;
-		if (digit < 0.0 || digit > 9.0)
-			digit = 0.0;
-		bytes[i] = "0123456789"[(size_t)digit];
-		val      = next;
+		/* Move 1 digit to after the decimal sign */
+		temp = val * 0.1;
+		/* Split the whole and fractional parts. */
+		M_math_modf(temp, &val);
+		bytes[i] = "0123456789"[(size_t)((temp - val) * 10.0) % 10];
 		i++;
 	} while (!M_float_equals(val, 0.0) && i < len-1);
 
-- 
2.43.0


From 3c59e97367df6fabacb38600383c3ac2dca766a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 048/277] fix: decimal division overflowed silently for large
 quotients

---
 base/math/m_decimal.c | 57 ++++++++++---------------------------------
 1 file changed, 13 insertions(+), 44 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 9104b4f..d947214 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -379,6 +379,7 @@ enum M_DECIMAL_RETVAL M_decimal_divide(M_decimal_t *dest, const M_decimal_t *dec
 	M_int64               num;          /*!< Whole integer of integer calculation */
 	M_int64               rem;          /*!< Remainder of integer calculation     */
 	M_int64               afterdec    = 0; /*!< Whole integer of integer calculation of numbers after decimal */
+	M_int64               num_exp     = 0; /*!< Whole integer * 10^wanteddec */
 	M_int64               remexp      = 0; /*!< Remainder * 10^wanteddec */
 	M_uint8               wanted_dec;   /*!< Number of desired decimal places in output */
 
@@ -401,56 +402,24 @@ enum M_DECIMAL_RETVAL M_decimal_divide(M_decimal_t *dest, const M_decimal_t *dec
 	rem        = tdec1.num % tdec2.num;
 
 	/* Loop until we can get the most decimal places that will fit in our
-	 * number . Always go for the maximum 18. */
-	wanted_dec = 18;
-
-	while (wanted_dec) {
-		M_int64 exp;
-
-		if ((rv = M_decimal_exp_int64(&exp, 10, wanted_dec)) != M_DECIMAL_SUCCESS)
-			return rv;
-
-		rv = M_decimal_mult_int64(&remexp, rem, exp);
-		if (rv == M_DECIMAL_SUCCESS)
-			break;
-
-		wanted_dec--;
-	}
-
-	/* Check for unrecoverable error, could be we can't represent any decimal
-	 * places at all */
-	if (rv != M_DECIMAL_SUCCESS)
-		return rv;
-
-	/* Calculate the number after the decimal */
-	rv = M_decimal_div_int64(&afterdec, remexp, tdec2.num, round);
-	if (rv != M_DECIMAL_SUCCESS && rv != M_DECIMAL_TRUNCATION)
-		return rv;
-
-	if (rv == M_DECIMAL_TRUNCATION)
-		afterdecrv = M_DECIMAL_TRUNCATION;
-
-	/* Loop losing precision until we can represent the number appropriately */
-	while (wanted_dec) {
+	 * number, losing precision until we can represent the number
+	 * appropriately. Always go for the maximum 18. */
+	for (wanted_dec = 18; ; wanted_dec--) {
 		M_int64 exp;
 
 		if ((rv = M_decimal_exp_int64(&exp, 10, wanted_dec)) != M_DECIMAL_SUCCESS)
 			return rv;
 
-		rv = M_decimal_mult_int64(&dest->num, num, exp);
-		if (rv == M_DECIMAL_SUCCESS)
-			break;
-
-		/* Otherwise overflow occurred trying to store such a big number, so we need
-		 * to truncate.  However, if we're truncating zeros, that's fine */
-		if (M_decimal_div_int64(&afterdec, afterdec, 10, round) == M_DECIMAL_TRUNCATION)
-			afterdecrv = M_DECIMAL_TRUNCATION;
-
-		wanted_dec--;
-	}
+		if (M_decimal_mult_int64(&remexp, rem, exp) == M_DECIMAL_SUCCESS &&
+		    M_decimal_mult_int64(&num_exp, num, exp) == M_DECIMAL_SUCCESS) {
+			/* Calculate the number after the decimal */
+			afterdecrv = M_decimal_div_int64(&afterdec, remexp, tdec2.num, round);
+			if (M_decimal_add_int64(&dest->num, num_exp, afterdec) == M_DECIMAL_SUCCESS)
+				break;
+		}
 
-	if (wanted_dec) {
-		dest->num += afterdec;
+		if (wanted_dec == 0)
+			return M_DECIMAL_OVERFLOW;
 	}
 
 	dest->num_dec = wanted_dec;
-- 
2.43.0


From ea14cb1d6cb7e1c3b5862125376ec7c5e50ecc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 049/277] fix: decimal rounding only looked at one digit and a
 tenth of the denominator

---
 base/math/m_decimal.c | 59 +++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 38 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index d947214..08dc528 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -119,10 +119,21 @@ static M_NOINLINE M_IGNORE_SIGNED_OVERFLOW enum M_DECIMAL_RETVAL M_decimal_mult_
 }
 
 
+static M_uint64 M_decimal_abs(M_int64 num)
+{
+	/* Special case */
+	if (num == M_INT64_MIN) {
+		return ((M_uint64)M_INT64_MAX)+1;
+	}
+
+	return num<0?(M_uint64)(num * -1):(M_uint64)num;
+}
+
+
 static enum M_DECIMAL_RETVAL M_decimal_div_int64(M_int64 *out, M_int64 num, M_int64 denom, M_decimal_round_t round)
 {
 	enum M_DECIMAL_RETVAL rv;
-	M_int64               moddenom;
+	M_uint64              rem;
 
 	if (denom == 0)
 		return M_DECIMAL_INVALID;
@@ -136,34 +147,17 @@ static enum M_DECIMAL_RETVAL M_decimal_div_int64(M_int64 *out, M_int64 num, M_in
 
 	*out = num / denom;
 
-	/* Round */
-	if (round != M_DECIMAL_ROUND_NONE) {
-		moddenom = denom/10;
-		if (moddenom) {
-			M_uint8 digit = (M_uint8)(M_ABS(num / moddenom) % 10);
-			if (num > 0 && digit > 5) {
+	/* Rounding -- division drops the remainder, so round away from zero if the remainder is more than half
+	 * of the denominator, or exactly half and the method says so.  */
+	rem = M_decimal_abs(num % denom);
+	if (rem != 0 && round != M_DECIMAL_ROUND_NONE) {
+		M_uint64 left = M_decimal_abs(denom) - rem;
+
+		if (rem > left || (rem == left && (round == M_DECIMAL_ROUND_TRADITIONAL || *out % 2 != 0))) {
+			if ((num < 0) == (denom < 0)) {
 				(*out)++;
-			} else if (num < 0 && digit > 5) {
+			} else {
 				(*out)--;
-			} else if (digit == 5) {
-				if (round == M_DECIMAL_ROUND_TRADITIONAL) {
-					if (num > 0) {
-						(*out)++;
-					} else {
-						(*out)--;
-					}
-				} else if (round == M_DECIMAL_ROUND_BANKERS) {
-					if ((M_ABS(*out) % 10) % 2) {
-						/* Digit is odd, round to even */
-						if (num > 0) {
-							(*out)++;
-						} else {
-							(*out)--;
-						}
-					} else {
-						/* Digit is even, do nothing */
-					}
-				}
 			}
 		}
 	}
@@ -532,17 +526,6 @@ M_int8 M_decimal_cmp(const M_decimal_t *dec1, const M_decimal_t *dec2)
 }
 
 
-static M_uint64 M_decimal_abs(M_int64 num)
-{
-	/* Special case */
-	if (num == M_INT64_MIN) {
-		return ((M_uint64)M_INT64_MAX)+1;
-	}
-
-	return num<0?(M_uint64)(num * -1):(M_uint64)num;
-}
-
-
 enum M_DECIMAL_RETVAL M_decimal_to_str(const M_decimal_t *dec, char *buf, size_t buf_len)
 {
 	char    *ptr           = buf;
-- 
2.43.0


From 2bb4da01175e4a5747cc66395a69919c34a8c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 050/277] fix: decimal multiplication wrapped the number of
 decimal places

---
 base/math/m_decimal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 08dc528..442cc11 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -337,6 +337,8 @@ enum M_DECIMAL_RETVAL M_decimal_multiply(M_decimal_t *dest, const M_decimal_t *d
 	for (i=0; ; i++) {
 		rv = M_decimal_mult_int64(&num, tdec1.num, tdec2.num);
 
+		if (rv != M_DECIMAL_OVERFLOW && tdec1.num_dec > M_UINT8_MAX / 2)
+			rv = M_DECIMAL_OVERFLOW; /* Too many decimal places in the result */
 		if (rv != M_DECIMAL_OVERFLOW)
 			break;
 
-- 
2.43.0


From 4ef7b6b219b9e34d4f9067466fdf1c28ac2be1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 051/277] fix: decimal comparison was wrong if the numbers
 cannot share their decimal places

---
 base/math/m_decimal.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 442cc11..879dbb5 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -487,8 +487,6 @@ M_int8 M_decimal_cmp(const M_decimal_t *dec1, const M_decimal_t *dec2)
 {
 	M_decimal_t           tdec1;
 	M_decimal_t           tdec2;
-	M_uint8               wanted_dec;
-	M_uint8               num_dec;
 
 	/* Invalid scenarios, but do something somewhat logical */
 	if (dec1 && !dec2)
@@ -504,20 +502,18 @@ M_int8 M_decimal_cmp(const M_decimal_t *dec1, const M_decimal_t *dec2)
 	M_decimal_duplicate(&tdec2, dec2);
 	M_decimal_reduce(&tdec2);
 
-	wanted_dec = M_MAX(tdec1.num_dec, tdec2.num_dec);
+	/* Scale the number with less decimal places up. If it no longer fits its magnitude is larger
+	 * than that of the other one so only its sign matters. */
+	while (tdec1.num_dec != tdec2.num_dec) {
+		M_decimal_t *tdec = tdec1.num_dec < tdec2.num_dec ? &tdec1 : &tdec2;
+		M_int8       sign = tdec == &tdec1 ? 1 : -1;
+		M_int64      num;
 
-	/* Loop until both numbers can be represented by the same number of
-	 * decimal places */
-	num_dec    = wanted_dec;
-	while (num_dec) {
-		M_decimal_duplicate(&tdec1, dec1);
-		M_decimal_duplicate(&tdec2, dec2);
+		if (M_decimal_mult_int64(&num, tdec->num, 10) != M_DECIMAL_SUCCESS)
+			return tdec->num < 0 ? (M_int8)(sign * -1) : sign;
 
-		if (M_decimal_transform(&tdec1, num_dec, M_DECIMAL_ROUND_TRADITIONAL) == M_DECIMAL_SUCCESS &&
-		    M_decimal_transform(&tdec2, num_dec, M_DECIMAL_ROUND_TRADITIONAL) == M_DECIMAL_SUCCESS) {
-			break;
-		}
-		num_dec--;
+		tdec->num = num;
+		tdec->num_dec++;
 	}
 
 	if (tdec1.num > tdec2.num)
-- 
2.43.0


From 7fb98b63e35f988194b6ae08a1272bf7a290b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 052/277] fix: decimal with more than 19 decimal places printed
 wrong digits

---
 base/math/m_decimal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 879dbb5..b90372e 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -578,7 +578,9 @@ enum M_DECIMAL_RETVAL M_decimal_to_str(const M_decimal_t *dec, char *buf, size_t
 	ptr_len--;
 
 	/* Output digits after decimal */
-	M_snprintf(ptr, ptr_len, "%0*llu", (int)dec->num_dec, num % M_uint64_exp(10, dec->num_dec));
+	if (dec->num_dec < num_digits)
+		num %= M_uint64_exp(10, dec->num_dec);
+	M_snprintf(ptr, ptr_len, "%0*llu", (int)dec->num_dec, num);
 
 	return M_DECIMAL_SUCCESS;
 }
-- 
2.43.0


From fe98af9594019dc710efd0a6db1cc007e185b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 053/277] fix: decimal parsing misread blanks, signs and long
 digit runs after the point

---
 base/math/m_decimal.c | 92 +++++++++++--------------------------------
 1 file changed, 22 insertions(+), 70 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index b90372e..ff4300d 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -591,14 +591,12 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 	M_str_int_retval_t     intrv;
 	enum M_DECIMAL_RETVAL  rv          = M_DECIMAL_SUCCESS;
 	M_int64                num         = 0;
-	M_int64                afterdec    = 0;
 	const char            *ptr         = string;
 	size_t                 num_read    = 0;
 	size_t                 len_left    = 0;
 	const char            *end         = NULL;
-	const char            *temp        = NULL;
-	size_t                 num_digits;
 	M_bool                 is_neg      = M_FALSE;
+	M_bool                 dropped     = M_FALSE;
 
 	if (string == NULL || len == 0 || val == NULL)
 		return M_DECIMAL_INVALID;
@@ -610,7 +608,9 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 
 	/* Handle a case of -0.123, where "-0" will be read before decimal but we
 	 * need to apply it after */
-	if (*string == '-') {
+	while (num_read < len && M_chr_isspace(string[num_read]))
+		num_read++;
+	if (num_read < len && string[num_read] == '-') {
 		is_neg = M_TRUE;
 	}
 
@@ -636,80 +636,32 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 		ptr++;
 		num_read++;
 
-		len_left = len - num_read;
-
-		/* Read in a loop.  If the read causes an overflow, read one less
-		 * until it no longer overflows.  Save the original end position
-		 * though for further processing (exponents) */
-		while (len_left) {
-			intrv = M_str_to_int64_ex(ptr, len_left, 10, &afterdec, &temp);
-			if (end == NULL)
-				end = temp;
-
-			if (intrv == M_STR_INT_INVALID) {
-				return M_DECIMAL_INVALID;
-			} else if (intrv == M_STR_INT_OVERFLOW) {
-				rv = M_DECIMAL_TRUNCATION;
-				len_left--;
+		/* Add the digits one by one, those that do not fit are dropped. */
+		val->num = num;
+		end      = ptr;
+		for (len_left = len - num_read; len_left && M_chr_isdigit(*end); len_left--, end++) {
+			M_int64 digit = *end - '0';
+
+			if (!dropped && val->num_dec < M_UINT8_MAX &&
+			    M_decimal_mult_int64(&num, val->num, 10) == M_DECIMAL_SUCCESS &&
+			    M_decimal_add_int64(&num, num, is_neg ? -digit : digit) == M_DECIMAL_SUCCESS) {
+				val->num = num;
+				val->num_dec++;
 			} else {
-				break;
+				dropped = M_TRUE;
+				if (digit != 0)
+					rv = M_DECIMAL_TRUNCATION;
 			}
 		}
 
-		/* If the number read is negative, invalid format! */
-		if (afterdec < 0)
+		/* Something must follow the decimal point unless it is the end */
+		if (end == ptr && len_left)
 			return M_DECIMAL_INVALID;
-
-		/* But make negative if before decimal was */
-		if (is_neg || num < 0)
-			afterdec *= -1;
-	} else {
-		end = ptr;
-	}
-
-	/* Convert into a single integer, keep reducing number of decimal places
-	 * until it fits */
-	if (afterdec) {
-		num_digits = (size_t)(temp - ptr); /* Use temp here as that is the actual number used */
 	} else {
-		num_digits = 0;
+		end      = ptr;
+		val->num = num;
 	}
 
-	/* Either the exponention of the 'before decimal' part could cause an
-	 * overflow, or adding on the 'after decimal' parts could.  So the entire
-	 * thing needs to be done in a loop */
-	do {
-		while (num_digits) {
-			M_int64 exp;
-
-			/* Not possible to overflow this calc. M_str_to_int64_ex was called previously on the decimal
- 			 * portion. If we're here there was no overflow so we know that we cannot have more than 19 digits. */
-			M_decimal_exp_int64(&exp, 10, (M_uint8)num_digits);
-
-			if (M_decimal_mult_int64(&val->num, num, exp) != M_DECIMAL_OVERFLOW) {
-				break;
-			}
-
-			M_decimal_div_int64(&afterdec, afterdec, 10, M_DECIMAL_ROUND_NONE);
-			num_digits--;
-			rv = M_DECIMAL_TRUNCATION;
-		}
-
-		if (num_digits) {
-			if (M_decimal_add_int64(&val->num, val->num, afterdec) == M_DECIMAL_SUCCESS) {
-				break;
-			}
-			/* Overflow, need to reduce num_digits */
-			M_decimal_div_int64(&afterdec, afterdec, 10, M_DECIMAL_ROUND_NONE);
-			num_digits--;
-			rv = M_DECIMAL_TRUNCATION;
-		} else {
-			val->num = num;
-			break;
-		}
-	} while (1);
-
-	val->num_dec = (M_uint8)num_digits;
 	M_decimal_reduce(val);
 
 	/* Handle the exponent/sci notation, e.g.   1.24e-2 == 0.0124 */
-- 
2.43.0


From f1b5f3e86da66839cac2dc8e05233239313ef281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 054/277] fix: decimal exponents ignored the length and lost
 values that need many decimal places

---
 base/math/m_decimal.c | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index ff4300d..3e2d45f 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -665,10 +665,7 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 	M_decimal_reduce(val);
 
 	/* Handle the exponent/sci notation, e.g.   1.24e-2 == 0.0124 */
-	if (end != NULL && string + len + 1 > end && M_chr_tolower(*end) == 'e') {
-		M_decimal_t           multiplier;
-		enum M_DECIMAL_RETVAL exprv;
-
+	if (end != NULL && string + len > end && M_chr_tolower(*end) == 'e') {
 		ptr      = end+1;
 		num_read = (size_t)(ptr - string);
 		len_left = len - num_read;
@@ -683,28 +680,18 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 		}
 
 		if (num >= 0) {
-			M_int64 exp;
-			if (num > 255 || M_decimal_exp_int64(&exp, 10, (M_uint8)num) == M_DECIMAL_OVERFLOW)
-				return M_DECIMAL_OVERFLOW;
-
-			M_decimal_from_int(&multiplier, exp, 0);
-		} else {
-			num *= -1;
-			if (num > 255)
-				return M_DECIMAL_OVERFLOW;
-			M_decimal_from_int(&multiplier, 1, (M_uint8)num);
-		}
-
-		exprv = M_decimal_multiply(val, val, &multiplier);
-		switch (exprv) {
-			case M_DECIMAL_OVERFLOW:
+			/* Move the decimal point, then add zeros */
+			for ( ; num > 0 && val->num != 0; num--) {
+				if (val->num_dec > 0) {
+					val->num_dec--;
+				} else if (M_decimal_mult_int64(&val->num, val->num, 10) == M_DECIMAL_OVERFLOW) {
+					return M_DECIMAL_OVERFLOW;
+				}
+			}
+		} else if (val->num != 0) {
+			if (num < -M_UINT8_MAX || val->num_dec - num > M_UINT8_MAX)
 				return M_DECIMAL_OVERFLOW;
-			case M_DECIMAL_TRUNCATION:
-				rv = M_DECIMAL_TRUNCATION;
-				break;
-			default:
-				/* Don't change the rv */
-				break;
+			val->num_dec = (M_uint8)(val->num_dec - num);
 		}
 
 		M_decimal_reduce(val);
-- 
2.43.0


From a64b6db1bf9e96acaf988de64e299ddcdd308d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 055/277] fix: clearing the malloc error callbacks left most of
 them in place

---
 base/mem/m_mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/mem/m_mem.c b/base/mem/m_mem.c
index 87bf5b6..1e30646 100644
--- a/base/mem/m_mem.c
+++ b/base/mem/m_mem.c
@@ -131,7 +131,7 @@ void M_malloc_clear_errorcb(void)
 	if (error_cbs_cnt <= 1)
 		return;
 
-	M_mem_set(error_cbs+1, 0, (sizeof(error_cbs)/sizeof(*error_cbs))-1); 
+	M_mem_set(error_cbs+1, 0, sizeof(error_cbs)-sizeof(*error_cbs)); 
 	error_cbs_cnt = 1;
 }
 
-- 
2.43.0


From 03d359f233d7d3cb9538559151773bd70f3781ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 056/277] fix: decimal division without room for decimal places
 rounded a half on its own

---
 base/math/m_decimal.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 3e2d45f..6e3930d 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -400,7 +400,7 @@ enum M_DECIMAL_RETVAL M_decimal_divide(M_decimal_t *dest, const M_decimal_t *dec
 	/* Loop until we can get the most decimal places that will fit in our
 	 * number, losing precision until we can represent the number
 	 * appropriately. Always go for the maximum 18. */
-	for (wanted_dec = 18; ; wanted_dec--) {
+	for (wanted_dec = 18; wanted_dec; wanted_dec--) {
 		M_int64 exp;
 
 		if ((rv = M_decimal_exp_int64(&exp, 10, wanted_dec)) != M_DECIMAL_SUCCESS)
@@ -413,11 +413,12 @@ enum M_DECIMAL_RETVAL M_decimal_divide(M_decimal_t *dest, const M_decimal_t *dec
 			if (M_decimal_add_int64(&dest->num, num_exp, afterdec) == M_DECIMAL_SUCCESS)
 				break;
 		}
-
-		if (wanted_dec == 0)
-			return M_DECIMAL_OVERFLOW;
 	}
 
+	/* No decimal places at all */
+	if (wanted_dec == 0)
+		afterdecrv = M_decimal_div_int64(&dest->num, tdec1.num, tdec2.num, round);
+
 	dest->num_dec = wanted_dec;
 
 	if (afterdecrv == M_DECIMAL_TRUNCATION || preprv == M_DECIMAL_TRUNCATION) {
-- 
2.43.0


From 6542d6771c8023154ca95131ea12e98d8962146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 057/277] fix: a decimal ending at its decimal point keeps
 having no end pointer

---
 base/math/m_decimal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 6e3930d..fb2cb00 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -658,6 +658,10 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 		/* Something must follow the decimal point unless it is the end */
 		if (end == ptr && len_left)
 			return M_DECIMAL_INVALID;
+
+		/* As before, a number that stops at its decimal point has no end pointer */
+		if (end == ptr)
+			end = NULL;
 	} else {
 		end      = ptr;
 		val->num = num;
-- 
2.43.0


From b999231e35d37a37a0898beb1f77adb4a93205a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 058/277] fix: shrinking an allocation kept its old size and
 let M_realloc_zero expose old bytes

---
 base/mem/m_mem.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/mem/m_mem.c b/base/mem/m_mem.c
index 1e30646..2a5d093 100644
--- a/base/mem/m_mem.c
+++ b/base/mem/m_mem.c
@@ -208,8 +208,9 @@ static void *M_realloc_int(void *ptr, size_t size, M_bool zero)
 	/* Get the original size */
 	M_mem_copy(&orig_size, ((char *)ptr) - M_SAFE_ALIGNMENT, sizeof(orig_size));
 
-	/* Copy all data to new memory address */
-	ret = M_memdup_max(ptr, orig_size, size);
+	/* Copy all data that still fits to new memory address */
+	ret = M_malloc(size);
+	M_mem_copy(ret, ptr, M_MIN(orig_size, size));
 
 	/* Zero out the extended memory if necesary */
 	if (ret != NULL && zero && size > orig_size) {
-- 
2.43.0


From cf6066a4e3d5308205503a70f017f6ae7a4fbff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 059/277] fix: the non-characters of planes A to F were
 accepted as valid code points

---
 base/utf8/m_utf8.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/base/utf8/m_utf8.c b/base/utf8/m_utf8.c
index 63e3451..9059b14 100644
--- a/base/utf8/m_utf8.c
+++ b/base/utf8/m_utf8.c
@@ -123,18 +123,8 @@ M_bool M_utf8_is_valid_cp(M_uint32 cp)
 	if (cp >= 0xD800 && cp <= 0xDFFF)
 		return M_FALSE;
 
-	/* Noncharacters */
-	if (cp == 0xFFFE || cp == 0xFFFF ||
-		cp == 0x1FFFE || cp == 0x1FFFF ||
-		cp == 0x2FFFE || cp == 0x2FFFF ||
-		cp == 0x3FFFE || cp == 0x3FFFF ||
-		cp == 0x4FFFE || cp == 0x4FFFF ||
-		cp == 0x5FFFE || cp == 0x5FFFF ||
-		cp == 0x6FFFE || cp == 0x6FFFF ||
-		cp == 0x7FFFE || cp == 0x7FFFF ||
-		cp == 0x8FFFE || cp == 0x8FFFF ||
-		cp == 0x9FFFE || cp == 0x9FFFF ||
-		cp == 0x10FFFE || cp == 0x10FFFF ||
+	/* Noncharacters, the last two of every plane and a block. */
+	if ((cp & 0xFFFE) == 0xFFFE ||
 		(cp >= 0xFDD0 && cp <= 0xFDEF))
 	{
 		return M_FALSE;
-- 
2.43.0


From 03251c2bc091c54d192f50dbd690a60e96687038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 060/277] fix: the code point at an index crashed on invalid
 text and existed one past the end

---
 base/utf8/m_utf8.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/base/utf8/m_utf8.c b/base/utf8/m_utf8.c
index 9059b14..ad6bdf4 100644
--- a/base/utf8/m_utf8.c
+++ b/base/utf8/m_utf8.c
@@ -322,20 +322,17 @@ M_utf8_error_t M_utf8_cp_at(const char *str, size_t idx, M_uint32 *cp)
 	if (M_str_isempty(str))
 		return M_UTF8_ERROR_INVALID_PARAM;
 
-	while (*next != '\0' && res == M_UTF8_ERROR_SUCCESS) {
+	while (*next != '\0') {
 		res = M_utf8_get_cp(str, cp, &next);
-		str = next;
+		if (res != M_UTF8_ERROR_SUCCESS)
+			return res;
 		if (i == idx)
-			break;
+			return M_UTF8_ERROR_SUCCESS;
+		str = next;
 		i++;
 	}
-	if (res != M_UTF8_ERROR_SUCCESS)
-		return res;
 
-	if (i != idx)
-		return M_UTF8_ERROR_INVALID_PARAM;
-
-	return M_UTF8_ERROR_SUCCESS;
+	return M_UTF8_ERROR_INVALID_PARAM;
 }
 
 M_utf8_error_t M_utf8_chr_at(const char *str, char *buf, size_t buf_size, size_t *len, size_t idx)
-- 
2.43.0


From 0d37cd26138542d51d526e70f2294e7c44420932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 061/277] fix: title case mapping used the lower case table

---
 base/utf8/m_utf8_case.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/utf8/m_utf8_case.c b/base/utf8/m_utf8_case.c
index a50631f..a05e16f 100644
--- a/base/utf8/m_utf8_case.c
+++ b/base/utf8/m_utf8_case.c
@@ -290,10 +290,10 @@ M_utf8_error_t M_utf8_totitle_cp(M_uint32 cp, M_uint32 *title_cp)
 		return M_UTF8_ERROR_BAD_CODE_POINT;
 
 	/* Not found means it's a title or not one that maps to an upper. */
-	if (!M_sort_binary_search(M_utf8_table_uptolow, M_utf8_table_uptolow_len, sizeof(*M_utf8_table_uptolow), &tmap, M_FALSE, M_utf8_compar_cp_map, NULL, &idx))
+	if (!M_sort_binary_search(M_utf8_table_title, M_utf8_table_title_len, sizeof(*M_utf8_table_title), &tmap, M_FALSE, M_utf8_compar_cp_map, NULL, &idx))
 		return M_UTF8_ERROR_SUCCESS;
 
-	*title_cp = M_utf8_table_uptolow[idx].cp2;
+	*title_cp = M_utf8_table_title[idx].cp2;
 	return M_UTF8_ERROR_SUCCESS;
 }
 
-- 
2.43.0


From 8f17e34b3a1f0a8390f047588949d6f6341c75ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 062/277] fix: letters inside the CJK, Hangul and Tangut blocks
 were not alphabetic or printable

---
 base/utf8/m_utf8_check.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/base/utf8/m_utf8_check.c b/base/utf8/m_utf8_check.c
index 88b4d06..41ed2f9 100644
--- a/base/utf8/m_utf8_check.c
+++ b/base/utf8/m_utf8_check.c
@@ -133,6 +133,37 @@ M_bool M_utf8_isupper(const char *str)
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
+/* UnicodeData.txt only names the first and last code point of these Lo blocks,
+ * so the generated table does not have the ones in between. */
+static const struct {
+	M_uint32 first;
+	M_uint32 last;
+} M_utf8_Lo_blocks[] = {
+	{ 0x3400,  0x4DBF  }, /* CJK Ideograph Extension A */
+	{ 0x4E00,  0x9FFF  }, /* CJK Ideograph */
+	{ 0xAC00,  0xD7A3  }, /* Hangul Syllable */
+	{ 0x17000, 0x187F7 }, /* Tangut Ideograph */
+	{ 0x18D00, 0x18D08 }, /* Tangut Ideograph Supplement */
+	{ 0x20000, 0x2A6DF }, /* CJK Ideograph Extension B */
+	{ 0x2A700, 0x2B739 }, /* CJK Ideograph Extension C */
+	{ 0x2B740, 0x2B81D }, /* CJK Ideograph Extension D */
+	{ 0x2B820, 0x2CEA1 }, /* CJK Ideograph Extension E */
+	{ 0x2CEB0, 0x2EBE0 }, /* CJK Ideograph Extension F */
+	{ 0x30000, 0x3134A }, /* CJK Ideograph Extension G */
+	{ 0x31350, 0x323AF }  /* CJK Ideograph Extension H */
+};
+
+static M_bool M_utf8_is_Lo_block(M_uint32 cp)
+{
+	size_t i;
+
+	for (i=0; i<sizeof(M_utf8_Lo_blocks)/sizeof(*M_utf8_Lo_blocks); i++) {
+		if (cp >= M_utf8_Lo_blocks[i].first && cp <= M_utf8_Lo_blocks[i].last)
+			return M_TRUE;
+	}
+	return M_FALSE;
+}
+
 M_bool M_utf8_isalpha_cp(M_uint32 cp)
 {
 	if (!M_utf8_is_valid_cp(cp))
@@ -156,6 +187,9 @@ M_bool M_utf8_isalpha_cp(M_uint32 cp)
 	if (M_sort_binary_search(&M_utf8_table_Nl, M_utf8_table_Nl_len, sizeof(*M_utf8_table_Nl), &cp, M_FALSE, M_utf8_compar_cp, NULL, NULL))
 		return M_TRUE;
 
+	if (M_utf8_is_Lo_block(cp))
+		return M_TRUE;
+
 	return M_FALSE;
 }
 
-- 
2.43.0


From 9e401e7095fd0d39778eeb5027ee425d5d75e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 063/277] fix: base32 decoding ignored the input length,
 misplaced padding and decoded padding as data

---
 base/bincodec/m_base32.c | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/base/bincodec/m_base32.c b/base/bincodec/m_base32.c
index 55af062..fd30f0d 100644
--- a/base/bincodec/m_base32.c
+++ b/base/bincodec/m_base32.c
@@ -119,27 +119,48 @@ size_t M_base32_encode(char *out, size_t out_len, const M_uint8 *in, size_t in_l
 size_t M_base32_decode(M_uint8 *out, size_t out_len, const char *in, size_t in_len)
 {
 	size_t cnt = 0;
+	size_t pad = 0;
+	size_t pos = 0;
 
 	if (out == NULL || out_len == 0 || in == NULL || in_len == 0 || out_len < M_base32_decode_size(in_len))
 		return 0;
 
-	while (*in) {
+	while (1) {
 		M_uint64 n = 0;
 		size_t   i;
 
+		/* Skip any whitespace */
+		while (pos < in_len && M_chr_isspace(in[pos]))
+			pos++;
+
+		/* Done, all groups are complete */
+		if (pos >= in_len)
+			break;
+
+		/* Nothing can follow a padded group */
+		if (pad != 0)
+			return 0;
+
 		/* Read in 8 bytes */
 		for (i=0; i<8; i++) {
 			int v;
 
 			/* Skip any whitespace */
-			while (M_chr_isspace(*in))
-				in++;
+			while (pos < in_len && M_chr_isspace(in[pos]))
+				pos++;
 
 			/* Out of data */
-			if (!*in)
+			if (pos >= in_len)
 				return 0;
 
-			v = M_base32_rev_charset[(M_uint8)*(in++)];
+			/* Only padding can follow padding */
+			if (in[pos] == '=') {
+				pad++;
+			} else if (pad != 0) {
+				return 0;
+			}
+
+			v = M_base32_rev_charset[(M_uint8)in[pos++]];
 			/* invalid character */
 			if (v < 0)
 				return 0;
@@ -147,8 +168,12 @@ size_t M_base32_decode(M_uint8 *out, size_t out_len, const char *in, size_t in_l
 			n |= ((M_uint64)v) << (35 - (i * 5));
 		}
 
-		/* Write out 5 bytes */
-		for (i=0; i<5; i++) {
+		/* Only these numbers of padding characters leave whole bytes */
+		if (pad != 0 && pad != 1 && pad != 3 && pad != 4 && pad != 6)
+			return 0;
+
+		/* Write out the bytes that aren't padding, up to 5 */
+		for (i=0; i<(8-pad)*5/8; i++) {
 			out[cnt++] = (n >> (32 - (i*8))) & 0xFF;
 		}
 	}
-- 
2.43.0


From c790cf2ead0036386731dc041a6d71682cd930a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 064/277] fix: base64 decoding rejected wrapped padding,
 accepted data after padding and read before blank input

---
 base/bincodec/m_base64.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/base/bincodec/m_base64.c b/base/bincodec/m_base64.c
index 4da2940..d425f2c 100644
--- a/base/bincodec/m_base64.c
+++ b/base/bincodec/m_base64.c
@@ -60,11 +60,12 @@ static __inline__ void M_base64_encode_adder(char *out, size_t bidx, size_t *pos
 		out[(*pos)++] = '\n';
 }
 
-static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size_t inlen, size_t *idx)
+static __inline__ M_bool M_base64_get_decchar(M_int32 *val, M_bool *ispad, const char *in, size_t inlen, size_t *idx)
 {
 	char c;
 
-	*val = 0;
+	*val   = 0;
+	*ispad = M_FALSE;
 
 	if (*idx >= inlen)
 		return M_FALSE;
@@ -82,10 +83,8 @@ static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size
 	c = in[*idx];
 	(*idx)++;
 	if (c == '=') {
-		/* Ensure we don't have any ='s in the middle of the data. Padding is only allowed at the end. */
-		if (*idx-1 < inlen-2) {
-			return M_FALSE;
-		}
+		/* The caller verifies padding is only at the end. */
+		*ispad = M_TRUE;
 		return M_TRUE;
 	}
 
@@ -213,6 +212,7 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 	M_int32 b;
 	M_int32 c;
 	M_int32 d;
+	M_bool  pad[4];
 	size_t  i;
 	size_t  pos = 0;
 
@@ -221,7 +221,7 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 
 	/* Remove whitespace at the end so we can validate any trailing padding. And so we know when
  	 * we're really done decoding. */
-	while (M_chr_isspace(in[inlen-1]))
+	while (inlen > 0 && M_chr_isspace(in[inlen-1]))
 		inlen--;
 
 	if (inlen == 0)
@@ -229,13 +229,18 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 
 	for (i=0; i<inlen; ) {
 		/* Take the four ascii characters and transform them into an int. */
-		if (!M_base64_get_decchar(&a, in, inlen, &i) ||
-			!M_base64_get_decchar(&b, in, inlen, &i) ||
-			!M_base64_get_decchar(&c, in, inlen, &i) ||
-			!M_base64_get_decchar(&d, in, inlen, &i))
+		if (!M_base64_get_decchar(&a, &pad[0], in, inlen, &i) ||
+			!M_base64_get_decchar(&b, &pad[1], in, inlen, &i) ||
+			!M_base64_get_decchar(&c, &pad[2], in, inlen, &i) ||
+			!M_base64_get_decchar(&d, &pad[3], in, inlen, &i))
 		{
 			return 0;
 		}
+
+		/* Padding is only allowed as the last one or two characters of the data. */
+		if (pad[0] || pad[1] || (pad[2] && !pad[3]) || (pad[3] && i != inlen)) {
+			return 0;
+		}
 		tmp = (a << 18) | (b << 12) | (c << 6) | d;
 
 		/* Break the bytes out into three chars. */
@@ -243,12 +248,12 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 			return 0;
 		}
 		/* We need to check for padding to know if we need to write these bytes or not. */
-		if (i != inlen || (i == inlen && in[inlen-2] != '=')) {
+		if (!pad[2]) {
 			if (!M_base64_write_decchar(out, outlen, (unsigned char)((tmp >> 8) & 0xFF), &pos)) {
 				return 0;
 			}
 		}
-		if (i != inlen || (i == inlen && in[inlen-1] != '=')) {
+		if (!pad[3]) {
 			if (!M_base64_write_decchar(out, outlen, (unsigned char)(tmp & 0xFF), &pos)) {
 				return 0;
 			}
-- 
2.43.0


From 2761f9863652fd083aa95d94d3f102b4da831f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 065/277] fix: hex decoding rejected wrapped data with an odd
 number of line breaks and dropped a trailing digit

---
 base/bincodec/m_hex.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/bincodec/m_hex.c b/base/bincodec/m_hex.c
index b55336d..2079638 100644
--- a/base/bincodec/m_hex.c
+++ b/base/bincodec/m_hex.c
@@ -108,10 +108,13 @@ size_t M_hex_decode(const char *in, size_t inLen, M_uint8 *out, size_t outLen)
 	size_t pos  = 0;
 	M_bool fail = M_FALSE;
 
-	if (in == NULL || inLen == 0 || inLen%2 != 0 || out == NULL || outLen < inLen/2)
+	if (in == NULL || inLen == 0 || out == NULL || outLen < inLen/2)
 		return 0;
 
-	while (get_byte(in, inLen, &i, &c1, &fail) && get_byte(in, inLen, &i, &c2, &fail)) {
+	while (get_byte(in, inLen, &i, &c1, &fail)) {
+		/* Every byte needs two digits */
+		if (!get_byte(in, inLen, &i, &c2, &fail))
+			return 0;
 		out[pos++] = (M_uint8)(hex2dec(c1) << 4 | hex2dec(c2));
 	}
 
-- 
2.43.0


From 5b8d3f2d6c80c0a50a3083d6d576a8584f19067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 066/277] fix: detecting base64 or hex read past the given
 length and had no room for a single hex byte

---
 base/bincodec/m_bincodec.c      | 3 ++-
 base/bincodec/m_bincodec_conv.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/bincodec/m_bincodec.c b/base/bincodec/m_bincodec.c
index 5de3bc4..c6788bf 100644
--- a/base/bincodec/m_bincodec.c
+++ b/base/bincodec/m_bincodec.c
@@ -33,8 +33,9 @@ size_t M_bincodec_decode_size(size_t inLen, M_bincodec_codec_t codec)
 {
 	switch (codec) {
 		case M_BINCODEC_BASE64:
-		case M_BINCODEC_BASE64ORHEX:
 			return M_base64_decode_size(inLen);
+		case M_BINCODEC_BASE64ORHEX:
+			return M_MAX(M_base64_decode_size(inLen), inLen/2);
 		case M_BINCODEC_BASE32:
 			return M_base32_decode_size(inLen);
 		case M_BINCODEC_HEX:
diff --git a/base/bincodec/m_bincodec_conv.c b/base/bincodec/m_bincodec_conv.c
index ddfd935..042e9cd 100644
--- a/base/bincodec/m_bincodec_conv.c
+++ b/base/bincodec/m_bincodec_conv.c
@@ -32,11 +32,11 @@
 
 size_t M_hex_or_base64_to_bin(M_uint8 *out, size_t outlen, const char *in, size_t inlen)
 {
-	if (in == NULL || *in == '\0')
+	if (in == NULL || inlen == 0 || *in == '\0')
 		return 0;
 
 	/* Detect if Hex */
-	if (inlen % 2 == 0 && M_str_ishex(in))
+	if (inlen % 2 == 0 && M_str_ishex_max(in, inlen))
 		return M_hex_decode(in, inlen, out, outlen);
 
 	/* Must be base64 if we're here */
-- 
2.43.0


From 0bc9f77ebd74842498425d0a486fe66009122fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 067/277] fix: normalizing a date with a day beyond a year and
 a month other than January was off by a day around leap years

---
 base/time/m_time_gm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/base/time/m_time_gm.c b/base/time/m_time_gm.c
index 3873d09..8b5e95f 100644
--- a/base/time/m_time_gm.c
+++ b/base/time/m_time_gm.c
@@ -87,13 +87,18 @@ void M_time_normalize_tm(struct M_time_tm *tm)
 	normalize_range(&tm->hour, &tm->min, 0, 59);
 	normalize_range(&tm->day, &tm->hour, 0, 23);
 
+	/* Months have to be in range before days can be counted as years */
+	normalize_range(&tm->year, &tm->month, 0, 11);
+
 	/* Optimization: normalize days to years. Not necesary
-	 * to the calc, but helps */
+	 * to the calc, but helps. From March on, it's the leap day of the
+	 * following year that's within the year being added (and the one of
+	 * the current year within the year being removed). */
 	while (1) {
 		if (tm->day > 0) {
-			is_leapyear = IS_LEAPYEAR(tm->year);
+			is_leapyear = IS_LEAPYEAR(tm->month > 1 ? tm->year+1 : tm->year);
 		} else {
-			is_leapyear = IS_LEAPYEAR(tm->year-1);
+			is_leapyear = IS_LEAPYEAR(tm->month > 1 ? tm->year : tm->year-1);
 		}
 		num_year_days = is_leapyear?366:365;
 
-- 
2.43.0


From 4682b216e686da61b4709dd85b02fb2ebe2b5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 068/277] fix: time zone files without indicator records or of
 version 3 and later were refused

---
 base/time/m_time_tz_olson.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/base/time/m_time_tz_olson.c b/base/time/m_time_tz_olson.c
index 3d212b0..168eee0 100644
--- a/base/time/m_time_tz_olson.c
+++ b/base/time/m_time_tz_olson.c
@@ -219,7 +219,7 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 
 	/* Version. */
 	ver = (char)M_time_tz_olson_parse_tzfile_read_byte(fd);
-	if (ver != '\0' && ver != '2')
+	if (ver != '\0' && (ver < '2' || ver > '4'))
 		return M_FALSE;
 
 	/* Reserved. */
@@ -233,15 +233,16 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 	typecnt    = (M_uint32)M_time_tz_olson_parse_tzfile_read_long(fd, M_FALSE);
 	charcnt    = (M_uint32)M_time_tz_olson_parse_tzfile_read_long(fd, M_FALSE);
 
-	/* These are all interrelated and should be the same length. The typecnt cannot be 0 according to the docs. */
-	if (typecnt != ttisstcnt || typecnt != ttisgmtcnt || ttisstcnt != ttisgmtcnt || typecnt == 0)
+	/* These are all interrelated and should be the same length, though the indicators are optional. The typecnt
+	 * cannot be 0 according to the docs. */
+	if (typecnt == 0 || (ttisstcnt != 0 && ttisstcnt != typecnt) || (ttisgmtcnt != 0 && ttisgmtcnt != typecnt))
 		return M_FALSE;
 
-	/* Check if we have a version 2 file which has 64 bit data. */
-	if (skip_first && ver == '2') {
+	/* Check if we have a version 2 (or later) file which has 64 bit data. */
+	if (skip_first && ver >= '2') {
 		/* The 64 bit data is a second complete version of the file after the 32 bit version. We skip past the
  		 * first set of data and start reading again at the location where the 64 bit data starts. */
-		M_fs_file_seek(fd, ttisstcnt+ttisstcnt+(leapcnt*8)+(timecnt*5)+(typecnt*6)+charcnt, M_FS_FILE_SEEK_CUR);
+		M_fs_file_seek(fd, ttisgmtcnt+ttisstcnt+(leapcnt*8)+(timecnt*5)+(typecnt*6)+charcnt, M_FS_FILE_SEEK_CUR);
 		return M_time_tz_olson_parse_tzfile(fd, tz, M_FALSE, M_TRUE);
 	}
 
-- 
2.43.0


From 946e58e6fb914929d49e93a29a2df77ac15d57ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 069/277] fix: damaged time zone files were read past their
 type and abbreviation tables

---
 base/time/m_time_tz_olson.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/time/m_time_tz_olson.c b/base/time/m_time_tz_olson.c
index 168eee0..8b5086a 100644
--- a/base/time/m_time_tz_olson.c
+++ b/base/time/m_time_tz_olson.c
@@ -250,7 +250,7 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 	transition_times = M_malloc(sizeof(*transition_times)*timecnt);
 	info_idxs        = M_malloc(sizeof(*info_idxs)*timecnt);
 	ttinfos          = M_malloc(sizeof(*ttinfos)*typecnt);
-	abbrs            = M_malloc(sizeof(*abbrs)*charcnt);
+	abbrs            = M_malloc_zero(sizeof(*abbrs)*((size_t)charcnt+1));
 
 	/* Read the times and the index in the offset array. */
 	for (i=0; i<timecnt; i++) {
@@ -259,7 +259,7 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 	for (i=0; i<timecnt; i++) {
 		info_idxs[i] = M_time_tz_olson_parse_tzfile_read_byte(fd);
 		/* Info index out of range. */
-		if (info_idxs[i] > typecnt) {
+		if (info_idxs[i] >= typecnt) {
 			M_free(transition_times);
 			M_free(info_idxs);
 			M_free(ttinfos);
@@ -271,10 +271,10 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 	/* Read the offset array */
 	for (i=0; i<typecnt; i++) {
 		ttinfos[i].tt_gmtoff  = M_time_tz_olson_parse_tzfile_read_long(fd, M_FALSE);
-		ttinfos[i].tt_isdst   = M_time_tz_olson_parse_tzfile_read_byte(fd);
+		ttinfos[i].tt_isdst   = M_time_tz_olson_parse_tzfile_read_byte(fd) != 0 ? M_TRUE : M_FALSE;
 		ttinfos[i].tt_abbrind = M_time_tz_olson_parse_tzfile_read_byte(fd);
 		/* Abbreviation index out of range. */
-		if (ttinfos[i].tt_abbrind > charcnt) {
+		if (ttinfos[i].tt_abbrind >= charcnt) {
 			M_free(transition_times);
 			M_free(info_idxs);
 			M_free(ttinfos);
-- 
2.43.0


From efdd5a0917ae4b6af3148cc0364cf4c543c32d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 070/277] fix: Olson zones reported the abbreviation of another
 period

---
 base/time/m_time_tz_olson.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/time/m_time_tz_olson.c b/base/time/m_time_tz_olson.c
index 8b5086a..ad5cdbb 100644
--- a/base/time/m_time_tz_olson.c
+++ b/base/time/m_time_tz_olson.c
@@ -314,8 +314,9 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 
 		/* Check if the abbreviation already exists or if we need to add it. */
 		if (!M_list_str_index_of((*tz)->abbrs, abbrs+ttinfos[info_idx].tt_abbrind, M_LIST_STR_MATCH_VAL, &abbr_idx)) {
+			/* The list is sorted so it could be added anywhere. */
 			M_list_str_insert((*tz)->abbrs, abbrs+ttinfos[info_idx].tt_abbrind);
-			abbr_idx = M_list_str_len((*tz)->abbrs)-1;
+			M_list_str_index_of((*tz)->abbrs, abbrs+ttinfos[info_idx].tt_abbrind, M_LIST_STR_MATCH_VAL, &abbr_idx);
 		}
 		transition->abbr   = M_list_str_at((*tz)->abbrs, abbr_idx);
 
-- 
2.43.0


From 51aa2dc46ea9973a9623d14650593a0f7e712552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 071/277] fix: zones without transitions were treated as UTC
 and times before the first transition as a later standard time

---
 base/time/m_time_tz_olson.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/base/time/m_time_tz_olson.c b/base/time/m_time_tz_olson.c
index ad5cdbb..ed5addf 100644
--- a/base/time/m_time_tz_olson.c
+++ b/base/time/m_time_tz_olson.c
@@ -304,11 +304,18 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 
 	/* Now that we have all the data create the tz and fill it in. */
 	*tz = M_time_tz_olson_create();
-	for (i=0; i<timecnt; i++) {
+	for (i=0; i<=(size_t)timecnt; i++) {
 		transition         = M_malloc(sizeof(*transition));
-		info_idx           = info_idxs[i];
 
-		transition->start  = transition_times[i];
+		/* The first type applies to any time before the first transition. */
+		if (i == 0) {
+			info_idx          = 0;
+			transition->start = M_INT64_MIN;
+		} else {
+			info_idx          = info_idxs[i-1];
+			transition->start = transition_times[i-1];
+		}
+
 		transition->offset = (M_time_t)ttinfos[info_idx].tt_gmtoff;
 		transition->isdst  = ttinfos[info_idx].tt_isdst;
 
-- 
2.43.0


From 44069f31a0937999faa714b230bc20824b209619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 072/277] fix: converting dates far from now took time
 proportional to the number of years, hours for extreme values

---
 base/time/m_time_gm.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/base/time/m_time_gm.c b/base/time/m_time_gm.c
index 8b5e95f..ec80755 100644
--- a/base/time/m_time_gm.c
+++ b/base/time/m_time_gm.c
@@ -28,6 +28,7 @@
 #include <mstdlib/mstdlib.h>
 
 #define IS_LEAPYEAR(year) (((year) % 400 == 0) || (((year) % 100 != 0) && ((year) % 4 == 0)))
+#define DAYS_PER_400_YEARS 146097
 
 static const int mdays[2][12] = {
 	{ 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 },
@@ -74,6 +75,7 @@ M_time_t M_time(void)
 
 void M_time_normalize_tm(struct M_time_tm *tm)
 {
+	M_int64 cycles;
 	int is_leapyear;
 	int num_month_days;
 	int num_year_days;
@@ -90,6 +92,11 @@ void M_time_normalize_tm(struct M_time_tm *tm)
 	/* Months have to be in range before days can be counted as years */
 	normalize_range(&tm->year, &tm->month, 0, 11);
 
+	/* The calendar repeats every 400 years, only what's left needs to be counted by year. */
+	cycles    = tm->day / DAYS_PER_400_YEARS;
+	tm->day  -= cycles * DAYS_PER_400_YEARS;
+	tm->year += cycles * 400;
+
 	/* Optimization: normalize days to years. Not necesary
 	 * to the calc, but helps. From March on, it's the leap day of the
 	 * following year that's within the year being added (and the one of
@@ -217,6 +224,7 @@ void M_time_togm(M_time_t t, M_time_gmtm_t *tm)
 M_time_t M_time_fromgm(M_time_gmtm_t *tm)
 {
 	M_time_t t;
+	M_int64  cycles;
 	int      i;
 
 	M_time_normalize_tm(tm);
@@ -245,6 +253,9 @@ M_time_t M_time_fromgm(M_time_gmtm_t *tm)
 	tm->min  = 0;
 
 	/* Bring years EPOCH ... do this last */
+	cycles    = (tm->year - 1970) / 400;
+	tm->sec  += cycles * DAYS_PER_400_YEARS * 86400;
+	tm->year -= cycles * 400;
 	while (tm->year != 1970) {
 		if (tm->year > 1970) {
 			int is_leapyear = IS_LEAPYEAR(tm->year-1);
-- 
2.43.0


From e83cb19cef538868849e4862cf1358667efda4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 073/277] fix: daylight saving rules for the last week of a
 month never applied

---
 base/time/m_time_tz_rule.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index a679ec0..f65f9c0 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -47,9 +47,6 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
  	 * day of the month is and from there we can determine what day of the month we're dealing with. */
 	atime.year  = year;
 	atime.month = change->month;
-	atime.hour  = change->hour;
-	atime.min   = change->min;
-	atime.sec   = change->sec;
 	occur       = change->occur;
 	aday        = change->wday;
 
@@ -63,7 +60,7 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 		start_day = 1;
 	} else {
 		start_day = M_time_days_in_month(atime.year, atime.month);
-		if (atime.day == 0) {
+		if (start_day == 0) {
 			return M_FALSE;
 		}
 	}
@@ -78,19 +75,27 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 		if (day < 1)
 			day += 7;
 		day += 7 * (occur-1);
+
+		/* The 5th occurrence means the last one, even if the month has only 4. */
+		if (occur == 5 && !M_time_is_valid_day(year, change->month, day)) {
+			day -= 7;
+		}
 	} else {
 		day = start_day - (atime.wday - aday);
 		if (day > start_day) {
 			day -= 7;
 		}
-		day -= 7 * (occur-1);
+		day += 7 * (occur+1);
 	}
 
 	/* Check that the day is really valid for the month. */
-	if (!M_time_is_valid_day(year, atime.month, day)) {
+	if (!M_time_is_valid_day(year, change->month, day)) {
 		return M_FALSE;
 	}
-	atime.day = day;
+	atime.day  = day;
+	atime.hour = change->hour;
+	atime.min  = change->min;
+	atime.sec  = change->sec;
 
 	*out = M_time_fromgm(&atime);
 	return M_TRUE;
-- 
2.43.0


From 80f039b986817ea9b01692011173631110edc377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 074/277] fix: daylight saving rules were inverted south of the
 equator and ended late east of Greenwich

---
 base/time/m_time_tz_rule.c | 66 +++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 37 deletions(-)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index f65f9c0..efd541e 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -101,33 +101,12 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 	return M_TRUE;
 }
 
-static M_bool M_time_tz_rule_isdst_mid(M_time_t cur_time, M_time_t dststart, M_time_t dstend, M_time_t offset_diff, M_bool isdst)
+/*! Determine if a time is from start up to end, where end may be in the following year. */
+static M_bool M_time_tz_rule_in_range(M_time_t t, M_time_t start, M_time_t end)
 {
-	/* A local time between during a fallback period can happen twice.
- 	 *
-	 * Once with DST and once without. For example:
-	 * In EST5EDT the first sunday of the month at 2:00AM the time falls back one hour for the DST change.
-	 * Due to this 1:30 will happen first due to DST then again after the 2:00AM fallback. Going forward
-	 * we don't have this issue.
-	 *
-	 * We're going to use the isdst flag to determine whether an ambiguous time should be treated as DST or not.
-	 */
-	if (!isdst && cur_time <= dstend && cur_time >= dstend-offset_diff)
-		return M_FALSE;
-
-	if (cur_time < dststart || cur_time > dstend)
-		return M_FALSE;
-	return M_TRUE;
-}
-
-static M_bool M_time_tz_rule_isdst_ends(M_time_t cur_time, M_time_t dststart, M_time_t dstend, M_time_t offset_diff, M_bool isdst)
-{
-	if (!isdst && cur_time <= dststart && cur_time >= dststart-offset_diff)
-		return M_FALSE;
-
-	if (cur_time > dststart || cur_time < dstend)
-		return M_FALSE;
-	return M_TRUE;
+	if (start < end)
+		return (t >= start && t < end) ? M_TRUE : M_FALSE;
+	return (t >= start || t < end) ? M_TRUE : M_FALSE;
 }
 
 static M_bool M_time_tz_rule_isdst(const M_time_tz_dst_rule_t *adjust, const M_time_localtm_t *ltime)
@@ -138,6 +117,8 @@ static M_bool M_time_tz_rule_isdst(const M_time_tz_dst_rule_t *adjust, const M_t
 	M_time_t         offset_diff;
 	M_time_localtm_t myltime;
 	M_bool           isdst;
+	M_bool           as_dst;
+	M_bool           as_std;
 
 	if (adjust == NULL || ltime == NULL) {
 		return M_FALSE;
@@ -151,19 +132,30 @@ static M_bool M_time_tz_rule_isdst(const M_time_tz_dst_rule_t *adjust, const M_t
 
 	M_mem_copy(&myltime, ltime, sizeof(myltime));
 	cur_time    = M_time_fromgm(&myltime);
-	offset_diff = M_ABS(adjust->offset) - M_ABS(adjust->offset_dst);
+	offset_diff = adjust->offset_dst - adjust->offset;
 	isdst       = ltime->isdst==1?M_TRUE:M_FALSE;
 
-	if (dststart < dstend) {
-		return M_time_tz_rule_isdst_mid(cur_time, dststart, dstend, offset_diff, isdst);
-	} else if (dststart > dstend) {
-		return M_time_tz_rule_isdst_ends(cur_time, dststart, dstend, offset_diff, isdst);
-	} else {
-		if (cur_time == dststart) {
-			return M_TRUE;
-		}
-		return M_FALSE;
-	}
+	if (dststart == dstend)
+		return cur_time == dststart ? M_TRUE : M_FALSE;
+
+	/* DST starts by the standard clock and ends by the DST clock. Check what the time would mean by each clock. */
+	as_dst = M_time_tz_rule_in_range(cur_time, dststart+offset_diff, dstend);
+	as_std = M_time_tz_rule_in_range(cur_time, dststart, dstend-offset_diff) ? M_FALSE : M_TRUE;
+
+	/* A local time between during a fallback period can happen twice.
+ 	 *
+	 * Once with DST and once without. For example:
+	 * In EST5EDT the first sunday of the month at 2:00AM the time falls back one hour for the DST change.
+	 * Due to this 1:30 will happen first due to DST then again after the 2:00AM fallback. Going forward
+	 * we don't have this issue.
+	 *
+	 * We're going to use the isdst flag to determine whether an ambiguous time should be treated as DST or not.
+	 */
+	if (as_dst && as_std)
+		return isdst;
+
+	/* A time that's skipped by both clocks is treated as DST. */
+	return as_std ? M_FALSE : M_TRUE;
 }
 
 /*! Determine if a date and time requires adjustment for DST.
-- 
2.43.0


From 8ba377eddec591afdd5c5e7fd375bb0acd40fcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 075/277] fix: zones without daylight saving rules had no
 abbreviation

---
 base/time/m_time_tz_rule.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index efd541e..1665147 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -230,6 +230,8 @@ static M_time_t M_time_tz_rule_adjust_tolocal(const void *data, M_time_t gmt, M_
 
 	/* No DST rules apply */
 	if (M_time_tz_dst_rules_len(rtz->adjusts) == 0) {
+		if (abbr)
+			*abbr = rtz->abbr;
 		return rtz->offset;
 	}
 
-- 
2.43.0


From e25ad5725ae39e939e688b355a80c66c9c293371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 076/277] fix: signed offsets of POSIX TZ strings were applied
 in the wrong direction

---
 base/time/m_time_tz_posix.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/base/time/m_time_tz_posix.c b/base/time/m_time_tz_posix.c
index 46fd0f3..d51d12d 100644
--- a/base/time/m_time_tz_posix.c
+++ b/base/time/m_time_tz_posix.c
@@ -251,6 +251,24 @@ static M_time_result_t M_time_tz_posix_parse_date_time(M_parser_t *parser, int *
 	return M_TIME_RESULT_SUCCESS;
 }
 
+/*! Parse an offset of a Posix TZ formatted string. It's what is added to local time to get UTC, so a sign has the
+ * opposite meaning of what it has in M_time_tz_posix_parse_time_offset. */
+static M_bool M_time_tz_posix_parse_str_offset(M_parser_t *parser, M_time_t *offset)
+{
+	unsigned char c;
+	M_bool        has_sign = M_FALSE;
+
+	if (M_parser_peek_byte(parser, &c) && (c == '+' || c == '-'))
+		has_sign = M_TRUE;
+
+	if (!M_time_tz_posix_parse_time_offset(parser, offset))
+		return M_FALSE;
+
+	if (has_sign)
+		*offset *= -1;
+	return M_TRUE;
+}
+
 /*! Parse a Posix TZ formatted string.
  * posix string have two forms (without spaces):
  * 1. std offset
@@ -297,7 +315,7 @@ static M_time_result_t M_time_tz_posix_parse_str(const char *str, size_t len, M_
 	}
 
 	/* Offset - Required */
-	if (!M_time_tz_posix_parse_time_offset(parts[0], &((*tz)->offset))) {
+	if (!M_time_tz_posix_parse_str_offset(parts[0], &((*tz)->offset))) {
 		M_parser_split_free(parts, num_parts);
 		M_parser_destroy(parser);
 		M_time_tz_rule_destroy(*tz);
@@ -323,7 +341,7 @@ static M_time_result_t M_time_tz_posix_parse_str(const char *str, size_t len, M_
 
 	/* dst offset - Optional */
 	plen = M_parser_len(parts[0]);
-	if (plen != 0 && !M_time_tz_posix_parse_time_offset(parts[0], &dst_offset)) {
+	if (plen != 0 && !M_time_tz_posix_parse_str_offset(parts[0], &dst_offset)) {
 		M_parser_split_free(parts, num_parts);
 		M_parser_destroy(parser);
 		M_time_tz_rule_destroy(*tz);
-- 
2.43.0


From b08ab74f863d2882c375d3e6ed55acaab6895305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 077/277] fix: incomplete POSIX TZ dates and times used
 uninitialized values

---
 base/time/m_time_tz_posix.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/base/time/m_time_tz_posix.c b/base/time/m_time_tz_posix.c
index d51d12d..637ece8 100644
--- a/base/time/m_time_tz_posix.c
+++ b/base/time/m_time_tz_posix.c
@@ -95,9 +95,14 @@ static M_bool M_time_tz_posix_parse_date(M_parser_t *parser, int *month, int *oc
 		return M_FALSE;
 	}
 
-	M_parser_read_int(parts[0], M_PARSER_INTEGER_ASCII, 0, 10, &m_val);
-	M_parser_read_int(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &o_val);
-	M_parser_read_int(parts[2], M_PARSER_INTEGER_ASCII, 0, 10, &w_val);
+	if (!M_parser_read_int(parts[0], M_PARSER_INTEGER_ASCII, 0, 10, &m_val) ||
+		!M_parser_read_int(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &o_val) ||
+		!M_parser_read_int(parts[2], M_PARSER_INTEGER_ASCII, 0, 10, &w_val))
+	{
+		M_parser_split_free(parts, num_parts);
+		M_parser_destroy(tparser);
+		return M_FALSE;
+	}
 
 	M_parser_split_free(parts, num_parts);
 	M_parser_destroy(tparser);
@@ -131,13 +136,19 @@ static M_bool M_time_tz_posix_parse_time(M_parser_t *parser, int *hour, int *min
 {
 	M_parser_t     *tparser;
 	M_parser_t    **parts;
+	int            *vals[3];
 	size_t          num_parts;
+	size_t          i;
 	unsigned char   c;
 	M_int64         val;
 
 	if (hour == NULL || min == NULL || sec == NULL)
 		return M_FALSE;
 
+	vals[0] = hour;
+	vals[1] = min;
+	vals[2] = sec;
+
 	/* default */
 	*hour = 2;      /* 2AM */
 	if (isoffset) {
@@ -180,17 +191,13 @@ static M_bool M_time_tz_posix_parse_time(M_parser_t *parser, int *hour, int *min
 	}
 
 	/* Set each part. */
-	if (num_parts >= 1) {
-		M_parser_read_int(parts[0], M_PARSER_INTEGER_ASCII, 0, 10, &val);
-		*hour = (int)val;
-	}
-	if (num_parts >= 2) {
-		M_parser_read_int(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &val);
-		*min = (int)val;
-	}
-	if (num_parts >= 3) {
-		M_parser_read_int(parts[2], M_PARSER_INTEGER_ASCII, 0, 10, &val);
-		*sec = (int)val;
+	for (i=0; i<num_parts; i++) {
+		if (!M_parser_read_int(parts[i], M_PARSER_INTEGER_ASCII, 0, 10, &val)) {
+			M_parser_split_free(parts, num_parts);
+			M_parser_destroy(tparser);
+			return M_FALSE;
+		}
+		*(vals[i]) = (int)val;
 	}
 
 	M_parser_split_free(parts, num_parts);
-- 
2.43.0


From 47e549f8e1ee8027c984fbfb34946468fdc9b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 078/277] fix: loading the system's time zones tried Windows'
 on other systems and the reverse

---
 base/time/m_time_tzs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/time/m_time_tzs.c b/base/time/m_time_tzs.c
index cd18e7e..94e5623 100644
--- a/base/time/m_time_tzs.c
+++ b/base/time/m_time_tzs.c
@@ -123,7 +123,7 @@ M_time_load_source_t M_time_tzs_load(M_time_tzs_t **tzs, M_uint32 zones, M_uint3
 	if (tzs == NULL)
 		return M_TIME_LOAD_SOURCE_FAIL;
 
-#ifndef _WIN32
+#ifdef _WIN32
 	*tzs = M_time_tzs_load_win_zones(zones, alias_f, flags);
 #else
 	*tzs = M_time_tzs_load_zoneinfo(NULL, zones, alias_f, flags);
-- 
2.43.0


From 9330c3e0b73ba4bde6ade169e5eabce0dfa60949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 079/277] fix: the fallback US time zones were off by an hour

---
 base/time/m_time_tzs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/time/m_time_tzs.c b/base/time/m_time_tzs.c
index 94e5623..92c458f 100644
--- a/base/time/m_time_tzs.c
+++ b/base/time/m_time_tzs.c
@@ -141,10 +141,10 @@ M_time_load_source_t M_time_tzs_load(M_time_tzs_t **tzs, M_uint32 zones, M_uint3
 
 	*tzs = M_time_tzs_create();
 	/* Main US timezones. DST rules implemented in 2007. */
-	M_time_tzs_add_posix_str(*tzs, "EST4EDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
-	M_time_tzs_add_posix_str(*tzs, "CST5CDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
-	M_time_tzs_add_posix_str(*tzs, "MST6MDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
-	M_time_tzs_add_posix_str(*tzs, "PST7PDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
+	M_time_tzs_add_posix_str(*tzs, "EST5EDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
+	M_time_tzs_add_posix_str(*tzs, "CST6CDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
+	M_time_tzs_add_posix_str(*tzs, "MST7MDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
+	M_time_tzs_add_posix_str(*tzs, "PST8PDT,M3.2.0/02:00:00,M11.1.0/02:00:00");
 
 	return M_TIME_LOAD_SOURCE_FALLBACK;
 }
-- 
2.43.0


From da8047cff737aea07d3a64d9276e2b43d7448e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 080/277] fix: loading all Olson zones dropped the aliases of
 zones already loaded

---
 base/time/m_time_tz_olson.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/base/time/m_time_tz_olson.c b/base/time/m_time_tz_olson.c
index ed5addf..7869ef1 100644
--- a/base/time/m_time_tz_olson.c
+++ b/base/time/m_time_tz_olson.c
@@ -656,11 +656,8 @@ static void M_time_tz_olson_load_zone(M_time_tzs_t *tzs, const char *path, const
 				/* Load the tz. */
 				tz = M_time_tz_olson_load_tzfile(real_name);
 				if (tz != NULL && !M_time_tzs_add_tz(tzs, tz, real_name)) {
+					/* The file was already loaded by another name, this one is an alias. */
 					M_time_tz_destroy(tz);
-					M_free(real_name);
-					M_free(olson_name);
-					M_free(name);
-					continue;
 				}
 			}
 		}
-- 
2.43.0


From c3b2d53d7da19220246bd49c96f9bf6f2d7a64ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 081/277] fix: M_time_parsefmt did not move past A.M. and P.M.

---
 base/time/m_time_parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 823a7b8..01b10f3 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -159,8 +159,10 @@ static M_int64 M_time_get_ampm_hour(const char **s, M_int64 hour)
 
 	if (M_str_caseeq_max(*s, "p.m.", 4)) {
 		is_pm = M_TRUE;
+		*s += 4;
 	} else if (M_str_caseeq_max(*s, "a.m.", 4)) {
 		/* Pass */
+		*s += 4;
 	} else if (M_str_caseeq_max(*s, "pm", 2)) {
 		is_pm = M_TRUE;
 		*s += 2;
-- 
2.43.0


From 00237c7095496abfb76d520570c7217953337f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 082/277] fix: M_time_parsefmt took named time zones' offsets
 as seconds instead of hours, and did not know zone P

---
 base/time/m_time_parse.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 01b10f3..136dddc 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -245,10 +245,10 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 				*s += 2;
 			} else if (**s == 'U') {
 				(*s)++;
-				*gmtoff = 8;
+				*gmtoff = 8*60*60;
 			} else if (**s == 'G') {
 				(*s)++;
-				*gmtoff = -7;
+				*gmtoff = -7*60*60;
 			} else {
 				return M_FALSE;
 			}
@@ -256,13 +256,13 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'E':
 			if (M_str_eq_max(*s, "EST", 3)) {
 				*s += 3;
-				*gmtoff = -5;
+				*gmtoff = -5*60*60;
 			} else if (M_str_eq_max(*s, "EDT", 3)) {
 				*s += 3;
-				*gmtoff = -4;
+				*gmtoff = -4*60*60;
 			} else if (**s == 'E') {
 				(*s)++;
-				*gmtoff = -5;
+				*gmtoff = -5*60*60;
 			} else {
 				return M_FALSE;
 			}
@@ -270,13 +270,13 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'C':
 			if (M_str_eq_max(*s, "CST", 3)) {
 				*s += 3;
-				*gmtoff = -6;
+				*gmtoff = -6*60*60;
 			} else if (M_str_caseeq_max(*s, "cdt", 3)) {
 				*s += 3;
-				*gmtoff = -5;
+				*gmtoff = -5*60*60;
 			} else if (**s == 'C') {
 				(*s)++;
-				*gmtoff = -3;
+				*gmtoff = -3*60*60;
 			} else {
 				return M_FALSE;
 			}
@@ -284,13 +284,13 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'M':
 			if (M_str_eq_max(*s, "MST", 3)) {
 				*s += 3;
-				*gmtoff = -7;
+				*gmtoff = -7*60*60;
 			} else if (M_str_eq_max(*s, "MDT", 3)) {
 				*s += 3;
-				*gmtoff = -6;
+				*gmtoff = -6*60*60;
 			} else if (**s == 'M') {
 				(*s)++;
-				*gmtoff = -12;
+				*gmtoff = -12*60*60;
 			} else {
 				return M_FALSE;
 			}
@@ -298,13 +298,13 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'P':
 			if (M_str_eq_max(*s, "PST", 3)) {
 				*s += 3;
-				*gmtoff = -8;
+				*gmtoff = -8*60*60;
 			} else if (M_str_eq_max(*s, "PDT", 3)) {
 				*s += 3;
-				*gmtoff = -7;
-			} else if (**s == 'M') {
+				*gmtoff = -7*60*60;
+			} else if (**s == 'P') {
 				(*s)++;
-				*gmtoff = 3;
+				*gmtoff = 3*60*60;
 			} else {
 				return M_FALSE;
 			}
@@ -315,12 +315,12 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'F':
 		case 'H':
 		case 'I':
-			*gmtoff = (**s - 'A' + 1) * -1;
+			*gmtoff = (**s - 'A' + 1) * -1*60*60;
 			(*s)++;
 			break;
 		case 'K':
 		case 'L':
-			*gmtoff = (**s - 'A') * -1;
+			*gmtoff = (**s - 'A') * -1*60*60;
 			(*s)++;
 			break;
 		case 'N':
@@ -333,7 +333,7 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'W':
 		case 'X':
 		case 'Y':
-			*gmtoff = (**s - 'N' + 1);
+			*gmtoff = (**s - 'N' + 1)*60*60;
 			(*s)++;
 			break;
 		case 'Z':
-- 
2.43.0


From 6363affc0dade840d4dd6cb41a57835ce5088faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 083/277] fix: M_time_parsefmt accepted a sign without digits
 as a time zone offset

---
 base/time/m_time_parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 136dddc..d3ebf50 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -351,6 +351,8 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case '2':
 			/* Get hours. */
 			x = (M_time_t)M_time_getnum(s, 2);
+			if (x < 0)
+				return M_FALSE;
 			*gmtoff = x*60*60;
 			/* Check for : and skip past. */
 			if (**s == ':') {
-- 
2.43.0


From 46fe7eb252178ba6e20580ce92c42ba1f53a27fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 084/277] fix: M_time_to_str's %I wrote midnight as 00

---
 base/time/m_time_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index d3ebf50..4e0cda1 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -888,7 +888,7 @@ char *M_time_to_str(const char *fmt, const M_time_localtm_t *tm)
 					M_buf_add_int_just(buf, mytm.hour, 2);
 					break;
 				case 'I':
-					M_buf_add_int_just(buf, mytm.hour>12?mytm.hour-12:mytm.hour, 2);
+					M_buf_add_int_just(buf, mytm.hour%12==0?12:mytm.hour%12, 2);
 					break;
 				/* minutes in 2 digit format. */
 				case 'M':
-- 
2.43.0


From 218ba65a183137f32db85f0159ea0c24a63731c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 085/277] fix: M_time_from_str ignored the offset in two of its
 formats

---
 base/time/m_time_parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 4e0cda1..456bb14 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -482,7 +482,7 @@ M_time_t M_time_from_str(const char *timestr, const M_time_tz_t *tz, M_bool defa
 		{ "%m-%d-%Y %H%M%S %p",     M_FALSE },
 		{ "%m-%d-%Y %I%M%S %P",     M_FALSE },
 		{ "%m-%d-%Y %I%M%S %p",     M_FALSE },
-		{ "%m-%d-%Y %H%M%S %z",     M_FALSE },
+		{ "%m-%d-%Y %H%M%S %z",     M_TRUE  },
 		{ "%m-%d-%Y %H:%M",         M_FALSE },
 		{ "%m-%d-%Y %H:%M %P",      M_FALSE },
 		{ "%m-%d-%Y %H:%M %p",      M_FALSE },
@@ -519,7 +519,7 @@ M_time_t M_time_from_str(const char *timestr, const M_time_tz_t *tz, M_bool defa
 		{ "%m-%d-%Y T %H%M%S",      M_FALSE },
 		{ "%m-%d-%Y T %H%M%S %P",   M_FALSE },
 		{ "%m-%d-%Y T %H%M%S %p",   M_FALSE },
-		{ "%m-%d-%Y T %H%M%S %z",   M_FALSE },
+		{ "%m-%d-%Y T %H%M%S %z",   M_TRUE  },
 		{ "%m-%d-%Y T %I%M%S %P",   M_FALSE },
 		{ "%m-%d-%Y T %I%M%S %p",   M_FALSE },
 		{ "%m-%d-%Y T %H:%M",       M_FALSE },
-- 
2.43.0


From d5675003c0588b52acf7efdf090c0b5ded43fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 086/277] fix: M_time_parsefmt read past the end of a format
 ending in a lone %

---
 base/time/m_time_parse.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 456bb14..b397fdf 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -980,8 +980,6 @@ char *M_time_parsefmt(const char *s, const char *fmt, M_time_localtm_t *tm)
 		fmt++;
 
 		switch (*fmt) {
-			/* end of fmt */
-			case 0:
 			/* chew %% chars */
 			case '%':
 				if (*s++ != '%')
-- 
2.43.0


From 93da75875b0c21b3eb8f41da1f86a072f40f33fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 087/277] fix: M_time_to_str's %y did not follow a year changed
 by normalising the time

---
 base/time/m_time_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index b397fdf..94d4de7 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -877,7 +877,7 @@ char *M_time_to_str(const char *fmt, const M_time_localtm_t *tm)
 					break;
 				/* year in 2 digit format. */
 				case 'y':
-					M_buf_add_int_just(buf, mytm.year2, 2);
+					M_buf_add_int_just(buf, mytm.year%100, 2);
 					break;
 				/* year in 4 digit format. */
 				case 'Y':
-- 
2.43.0


From b81ab9318870db3b355434ad508452b84a608564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 088/277] fix: normalising a path took a path held by an
 environment variable as a single component

---
 base/fs/m_fs_path_norm.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/base/fs/m_fs_path_norm.c b/base/fs/m_fs_path_norm.c
index 2504c02..e44d183 100644
--- a/base/fs/m_fs_path_norm.c
+++ b/base/fs/m_fs_path_norm.c
@@ -81,9 +81,10 @@ static char *M_fs_path_norm_sep(const char *path, M_fs_system_t sys_type)
 	return M_buf_finish_str(buf, NULL);
 }
 
-static M_bool M_fs_path_norm_expand_env_vars(M_list_str_t **dirs)
+static M_bool M_fs_path_norm_expand_env_vars(M_list_str_t **dirs, M_fs_system_t sys_type)
 {
 	M_list_str_t *temp_dirs;
+	M_list_str_t *val_dirs;
 	char         *platform_env_var;
 	char         *retpath = NULL;
 	const char   *env_var;
@@ -193,9 +194,14 @@ static M_bool M_fs_path_norm_expand_env_vars(M_list_str_t **dirs)
 #endif
 		M_free(platform_env_var);
 
-		/* Put the expanded env var into the result dir */
+		/* Put the parts of the expanded env var into the result dir. Only a leading
+		 * one can make the path absolute. */
 		if (*retpath != '\0') {
-			M_list_str_insert(temp_dirs, retpath);
+			val_dirs = M_fs_path_componentize_path(retpath, sys_type);
+			if (M_list_str_len(temp_dirs) > 0 && M_str_isempty(M_list_str_at(val_dirs, 0))) {
+				M_list_str_remove_at(val_dirs, 0);
+			}
+			M_list_str_merge(&temp_dirs, val_dirs, M_TRUE);
 		}
 		M_free(retpath);
 	}
@@ -421,7 +427,7 @@ static M_fs_error_t M_fs_path_norm_int(char **out, const char *path, M_uint32 fl
 	parts = M_fs_path_componentize_path(temp, sys_type);
 	M_free(temp);
 
-	if (!M_fs_path_norm_expand_env_vars(&parts)) {
+	if (!M_fs_path_norm_expand_env_vars(&parts, sys_type)) {
 		M_list_str_destroy(parts);
 		return M_FS_ERROR_GENERIC;
 	}
-- 
2.43.0


From 7c1c1660cc14b5bd7738d1bfc1520ca4396ba65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 089/277] fix: normalising a path expanded references to the
 environment in the targets of symlinks

---
 base/fs/m_fs_path_norm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/fs/m_fs_path_norm.c b/base/fs/m_fs_path_norm.c
index e44d183..3660d4a 100644
--- a/base/fs/m_fs_path_norm.c
+++ b/base/fs/m_fs_path_norm.c
@@ -389,6 +389,7 @@ static M_fs_error_t M_fs_path_norm_int(char **out, const char *path, M_uint32 fl
 	char         *str_p;
 	char         *temp;
 	size_t        len;
+	M_bool        first;
 	M_fs_error_t  ret;
 
 	*out = NULL;
@@ -427,12 +428,15 @@ static M_fs_error_t M_fs_path_norm_int(char **out, const char *path, M_uint32 fl
 	parts = M_fs_path_componentize_path(temp, sys_type);
 	M_free(temp);
 
-	if (!M_fs_path_norm_expand_env_vars(&parts, sys_type)) {
+	/* Only what was asked to be normalized can have references, not where a symlink points to. */
+	first = M_hash_strvp_num_keys(seen) == 1 ? M_TRUE : M_FALSE;
+
+	if (first && !M_fs_path_norm_expand_env_vars(&parts, sys_type)) {
 		M_list_str_destroy(parts);
 		return M_FS_ERROR_GENERIC;
 	}
 
-	if (flags & M_FS_PATH_NORM_HOME && !M_fs_path_norm_home(&parts, sys_type)) {
+	if (first && flags & M_FS_PATH_NORM_HOME && !M_fs_path_norm_home(&parts, sys_type)) {
 		M_list_str_destroy(parts);
 		return M_FS_ERROR_GENERIC;
 	}
-- 
2.43.0


From 497b585cee15962d20b21924e727e81e6a26cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 090/277] fix: reading a symlink first looked at its normalized
 path, which can be another file

---
 base/fs/m_fs_path.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/base/fs/m_fs_path.c b/base/fs/m_fs_path.c
index 54556e0..6dc355c 100644
--- a/base/fs/m_fs_path.c
+++ b/base/fs/m_fs_path.c
@@ -30,6 +30,7 @@
 #ifndef _WIN32
 #  include <errno.h>
 #  include <sys/types.h>
+#  include <sys/stat.h>
 #  include <unistd.h>
 #endif
 
@@ -391,7 +392,7 @@ M_fs_error_t M_fs_path_readlink_int(char **out, const char *path, M_bool last, M
 	ssize_t      read_len;
 	size_t       path_max;
 	int          errsv;
-	M_fs_info_t *info;
+	struct stat  info;
 
 	if (out == NULL || path == NULL) {
 		return M_FS_ERROR_INVALID;
@@ -399,16 +400,14 @@ M_fs_error_t M_fs_path_readlink_int(char **out, const char *path, M_bool last, M
 	*out = NULL;
 
 	/* Check if this is actually a symlink */
-	if (M_fs_info(&info, path, M_FS_PATH_INFO_FLAGS_BASIC) != M_FS_ERROR_SUCCESS) {
+	if (lstat(path, &info) != 0) {
 		/* Must not be a real path so it's not a symlink. */
 		return M_FS_ERROR_SUCCESS;
 	}
-	if (M_fs_info_get_type(info) != M_FS_TYPE_SYMLINK) {
+	if (!S_ISLNK(info.st_mode)) {
 		/* Real path but it's not a symlink. */
-		M_fs_info_destroy(info);
 		return M_FS_ERROR_SUCCESS;
 	}
-	M_fs_info_destroy(info);
 
 	path_max = M_fs_path_get_path_max(sys_type);
 	temp     = M_malloc_zero(path_max);
-- 
2.43.0


From b3cced0d25902a1de0ab8e5aa02eaebfd8ddc2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 091/277] fix: seeking to the beginning or the end of a file
 did nothing

---
 base/fs/m_fs_file.c     | 3 ++-
 base/fs/m_fs_file_unx.c | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index e9e2b4a..935c538 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -188,7 +188,8 @@ M_fs_error_t M_fs_file_write(M_fs_file_t *fd, const unsigned char *buf, size_t c
 	if (fd->buf_size > 0) {
 		/* If a write comes in a move to the correct file offset in case it's different due to buffered reading.
  		 * Use the system call because "seek" will kill the read and write bufs. */
-		M_fs_file_seek_sys(fd, fd->read_offset * -1, M_FS_FILE_SEEK_CUR);
+		if (fd->read_offset != 0)
+			M_fs_file_seek_sys(fd, fd->read_offset * -1, M_FS_FILE_SEEK_CUR);
 		/* Kill the read buf and set the offset correctly. */
 		M_buf_truncate(fd->read_buf, 0);
 		fd->read_offset = 0;
diff --git a/base/fs/m_fs_file_unx.c b/base/fs/m_fs_file_unx.c
index b557a61..3ce048d 100644
--- a/base/fs/m_fs_file_unx.c
+++ b/base/fs/m_fs_file_unx.c
@@ -201,7 +201,8 @@ M_fs_error_t M_fs_file_seek_sys(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_
 		whence = SEEK_SET;
 	}
 
-	while (offset != 0) {
+	/* An offset of 0 is a position too, it needs to be moved to. */
+	do {
 		M_int64 amt_to_move = offset;
 		if (sizeof(off_t) == 4) {
 			if (offset > M_INT32_MAX) {
@@ -216,7 +217,9 @@ M_fs_error_t M_fs_file_seek_sys(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_
 			return M_fs_error_from_syserr(errno);
 		}
 		offset -= amt_to_move;
-	}
+		/* Anything left is relative to where we are now. */
+		whence  = SEEK_CUR;
+	} while (offset != 0);
 
 	return M_FS_ERROR_SUCCESS;
 }
-- 
2.43.0


From 363a0c39db43174a0d1e9ef5443fbfa73ba71b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 092/277] fix: a buffered read at the end of the file dropped
 what was left in the buffer

---
 base/fs/m_fs_file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index 935c538..64a6b71 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -113,7 +113,7 @@ M_fs_error_t M_fs_file_read(M_fs_file_t *fd, unsigned char *buf, size_t buf_len,
 	*read_len = read_total;
 
 	/* Read from the read buffer into the request buffer any additional data. */
-	if (fd->buf_size > 0 && read_total > 0) {
+	if (fd->buf_size > 0 && M_buf_len(fd->read_buf) + read_total > 0) {
 		M_buf_direct_write_end(fd->read_buf, read_total);
 
 		/* Fill the request buffer. */
@@ -121,7 +121,7 @@ M_fs_error_t M_fs_file_read(M_fs_file_t *fd, unsigned char *buf, size_t buf_len,
 		M_mem_copy(buf, M_buf_peek(fd->read_buf), read_max);
 		M_buf_drop(fd->read_buf, read_max);
 		/* Offset is now how much read vs how much written to request buffer. */
-		fd->read_offset += (M_int64)(read_total - read_max);
+		fd->read_offset += (M_int64)read_total - (M_int64)read_max;
 		*read_len        = read_max;
 	}
 
-- 
2.43.0


From cbdd0fd80aa5634cc638df1598e17460a1305544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 093/277] fix: a failed seek in a file being read with a buffer
 moved the position

---
 base/fs/m_fs_file.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index 64a6b71..647b752 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -259,6 +259,8 @@ M_fs_error_t M_fs_file_write_bytes(const char *path, const unsigned char *buf, s
 
 M_fs_error_t M_fs_file_seek(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_t from)
 {
+	M_fs_error_t res;
+
 	if (fd == NULL)
 		return M_FS_ERROR_INVALID;
 
@@ -282,13 +284,18 @@ M_fs_error_t M_fs_file_seek(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_t fr
 	}
 
 	/* Otherwise, move the file offset to the expected location and kill the read buf. */
-	M_buf_truncate(fd->read_buf, 0);
 	if (fd->read_offset != 0 && from == M_FS_FILE_SEEK_CUR)
 		offset -= fd->read_offset;
+
+	/* Seek to the requested location. If it can't be moved to we're still at the current one. */
+	res = M_fs_file_seek_sys(fd, offset, from);
+	if (res != M_FS_ERROR_SUCCESS)
+		return res;
+
+	M_buf_truncate(fd->read_buf, 0);
 	fd->read_offset = 0;
 
-	/* Seek to the requested location. */
-	return M_fs_file_seek_sys(fd, offset, from);
+	return M_FS_ERROR_SUCCESS;
 }
 
 M_fs_error_t M_fs_file_sync(M_fs_file_t *fd, M_uint32 type)
-- 
2.43.0


From 3804f4e491c52f149cfb9478e3d9e66bf696a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 094/277] fix: reading or seeking with writes that can't be
 flushed would put them elsewhere later

---
 base/fs/m_fs_file.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index 647b752..147301c 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -83,8 +83,11 @@ M_fs_error_t M_fs_file_read(M_fs_file_t *fd, unsigned char *buf, size_t buf_len,
 		/* flush the write buf because location in the file will have
 		 * moved and writes can't happen at the new location. This also
 		 * invalidates the read buffer since the read location may have changed. */
-		if (M_buf_len(fd->write_buf) > 0)
-			M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+		if (M_buf_len(fd->write_buf) > 0) {
+			res = M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+			if (res != M_FS_ERROR_SUCCESS)
+				return res;
+		}
 
 		/* If we can read from the user buffer do so. */
 		if (M_buf_len(fd->read_buf) >= buf_len) {
@@ -270,8 +273,11 @@ M_fs_error_t M_fs_file_seek(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_t fr
 	/* flush the write buf because location in the file will have
 	 * moved and writes can't happen at the new location. This will
 	 * kill the write buf. */
-	if (M_buf_len(fd->write_buf) > 0)
-		M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+	if (M_buf_len(fd->write_buf) > 0) {
+		res = M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+		if (res != M_FS_ERROR_SUCCESS)
+			return res;
+	}
 
 	/* If we're seeking ahead from the current position, and the destination is still inside
 	 * our read buffer, just drop bytes from the read buffer and update the read offset.
-- 
2.43.0


From 7e702b8b18ba465000d7875ccb7062e033814222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 095/277] fix: M_fs_copy reported success when the end of a
 file could not be written

---
 base/fs/m_fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 6a3e1ea..bf7d310 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -273,6 +273,9 @@ static M_fs_error_t M_fs_copy_file(const char *path_old, const char *path_new, M
 			break;
 		}
 	}
+	/* What's still buffered has to be written too, closing can't tell if it wasn't. */
+	if (res == M_FS_ERROR_SUCCESS)
+		res = M_fs_file_sync(fd_new, M_FS_FILE_SYNC_BUFFER);
 	M_fs_file_close(fd_old);
 	M_fs_file_close(fd_new);
 	if (res != M_FS_ERROR_SUCCESS) {
-- 
2.43.0


From 1c3b7a409af502adee3c9b5e877725fe26353a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 096/277] fix: starting a thread took a spurious wakeup for the
 other side's signal

---
 thread/m_thread.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/thread/m_thread.c b/thread/m_thread.c
index aa937f7..69ac8c2 100644
--- a/thread/m_thread.c
+++ b/thread/m_thread.c
@@ -72,6 +72,7 @@ typedef struct {
 	void             *arg;
 	M_bool            joinable;
 	M_threadid_t     *thread_id;  /*!< Pointer to OS thread id */
+	M_bool            started;    /*!< Parent has recorded the thread, it is ok to run */
 	M_thread_cond_t  *cond;       /*!< Pointer for Conditional for signalling when OS thread id has been filled */
 	M_thread_mutex_t *mutex;      /*!< Pointer for Mutex for OS thread id filling */
 } M_thread_wrapfunc_data_t;
@@ -102,7 +103,8 @@ static void *M_thread_wrapfunc(void *arg)
 	M_thread_cond_signal(data->cond);
 
 	/* Wait for parent to say it is ok to continue */
-	M_thread_cond_wait(data->cond, data->mutex);
+	while (!data->started)
+		M_thread_cond_wait(data->cond, data->mutex);
 
 	/* Destroy unneeded data */
 	M_thread_mutex_unlock(data->mutex);
@@ -499,6 +501,7 @@ M_threadid_t M_thread_create(const M_thread_attr_t *attr, void *(*func)(void *),
 	data->cond      = cond;
 	data->mutex     = mutex;
 	data->thread_id = &id;
+	data->started   = M_FALSE;
 	data->joinable  = M_thread_attr_get_create_joinable(attr);
 
 	/* ensure an attr is created so threads are setup properly (in a detachted state by default). */
@@ -522,7 +525,8 @@ M_threadid_t M_thread_create(const M_thread_attr_t *attr, void *(*func)(void *),
 	}
 
 	/* Wait to be signaled that the thread id has been set by the thread */
-	M_thread_cond_wait(cond, mutex);
+	while (id == 0)
+		M_thread_cond_wait(cond, mutex);
 
 	/* Add to thread map */
 	M_thread_mutex_lock(threadid_mutex);
@@ -540,6 +544,7 @@ M_threadid_t M_thread_create(const M_thread_attr_t *attr, void *(*func)(void *),
 
 	/* Signal thread its ok to continue as we've recorded the necessary information
 	 * NOTE:  it is the responsibility of the thread to destroy cond and mutex */
+	data->started = M_TRUE;
 	M_thread_cond_signal(cond);
 	M_thread_mutex_unlock(mutex);
 
-- 
2.43.0


From baa785926743742b05bbf068f54c49891f3ef1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 097/277] fix: timed waits longer than 71 minutes ended early

---
 thread/m_thread.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thread/m_thread.c b/thread/m_thread.c
index 69ac8c2..4fc0468 100644
--- a/thread/m_thread.c
+++ b/thread/m_thread.c
@@ -821,7 +821,8 @@ M_bool M_thread_cond_timedwait(M_thread_cond_t *cond, M_thread_mutex_t *mutex, M
 	M_time_gettimeofday(&tv);
 
 	/* Convert delay to microseconds, add to microseconds field. */
-	tv.tv_usec += (M_uint32)(millisec * 1000);
+	tv.tv_sec  += (M_time_t)(millisec / 1000);
+	tv.tv_usec += (M_suseconds_t)((millisec % 1000) * 1000);
 
 	/* M_thread_cond_timedwait_abs() will normalize the time struct for us. */
 	return M_thread_cond_timedwait_abs(cond, mutex, &tv);
-- 
2.43.0


From a00b9e007444d8b935e938ca8d308ace7bf5ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 098/277] fix: a coop poll with a timeout over 35 minutes
 overflowed

---
 thread/m_thread_coop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/m_thread_coop.c b/thread/m_thread_coop.c
index 21983fa..c49971a 100644
--- a/thread/m_thread_coop.c
+++ b/thread/m_thread_coop.c
@@ -735,7 +735,7 @@ static int M_thread_coop_poll(struct pollfd fds[], nfds_t nfds, int timeout)
 		pollst->fds  = fds;
 		if (timeout != -1) {
 			M_time_gettimeofday(&to_tv);
-			to_tv.tv_usec += timeout * 1000;
+			to_tv.tv_usec += (M_suseconds_t)timeout * 1000;
 			if (to_tv.tv_usec > 1000000) {
 				to_tv.tv_sec += to_tv.tv_usec / 1000000;
 				to_tv.tv_usec = to_tv.tv_usec % 1000000;
-- 
2.43.0


From bba25288bc4a9e22ede1cd84afc2f8bce8ec3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 099/277] fix: a task queued while the pool's last idle thread
 was exiting never ran

---
 thread/m_threadpool.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/thread/m_threadpool.c b/thread/m_threadpool.c
index ee0b176..462f6ad 100644
--- a/thread/m_threadpool.c
+++ b/thread/m_threadpool.c
@@ -188,6 +188,16 @@ static M_bool M_threadpool_queue_fetch(M_threadpool_t *pool, M_threadpool_queue_
 
 		pool->num_idle_threads--;
 	}
+
+	if (!acquired) {
+		/* The thread is going to exit.  It must not be counted any more once the
+		 * lock is released or a task could be queued with nobody to process it */
+		pool->num_threads--;
+		/* On M_threadpool_destroy() it will block on queue_icond until woken up
+		 * with the thread count at 0 */
+		if (!pool->up && pool->num_threads == 0)
+			M_thread_cond_broadcast(pool->queue_icond);
+	}
 	M_thread_mutex_unlock(pool->queue_lock);
 
 	return acquired;
@@ -228,14 +238,6 @@ static void *M_threadpool_thread(void *arg)
 		M_thread_mutex_unlock(task.parent->lock);
 	}
 
-	M_thread_mutex_lock(pool->queue_lock);
-	pool->num_threads--;
-	/* On M_threadpool_destroy() it will block on queue_icond until woken up
-	 * with the thread count at 0 */
-	if (!pool->up && pool->num_threads == 0)
-		M_thread_cond_broadcast(pool->queue_icond);
-	M_thread_mutex_unlock(pool->queue_lock);
-
 	return NULL;
 }
 
-- 
2.43.0


From f03404d861260940a2f8b18c577c05f02242cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 100/277] fix: cleanup looked at the thread map without its
 lock

---
 thread/m_thread.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/thread/m_thread.c b/thread/m_thread.c
index 4fc0468..0a36db0 100644
--- a/thread/m_thread.c
+++ b/thread/m_thread.c
@@ -156,9 +156,18 @@ static M_thread_once_t M_thread_init_once = M_THREAD_ONCE_STATIC_INITIALIZER;
 
 static void M_thread_deinit(void *arg)
 {
+	size_t num_threads;
+
 	(void)arg;
 
-	if (thread_model == M_THREAD_MODEL_INVALID || M_thread_count() != 0 || M_hash_u64vp_num_keys(threadid_map) > 1 /* Main thread is counted */)
+	if (thread_model == M_THREAD_MODEL_INVALID || M_thread_count() != 0)
+		return;
+
+	/* A detached thread that is done running may still be removing itself */
+	M_thread_mutex_lock(threadid_mutex);
+	num_threads = M_hash_u64vp_num_keys(threadid_map);
+	M_thread_mutex_unlock(threadid_mutex);
+	if (num_threads > 1 /* Main thread is counted */)
 		return;
 
 	if (!M_thread_once_reset_int(&M_thread_init_once, M_TRUE))
-- 
2.43.0


From 8f79d590e2f10cda03c7327c3dbb62e0b1d98143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 101/277] fix: a pipeline task whose own step failed was
 reported as aborted

---
 thread/m_thread_pipeline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/m_thread_pipeline.c b/thread/m_thread_pipeline.c
index 4bedfc4..2795044 100644
--- a/thread/m_thread_pipeline.c
+++ b/thread/m_thread_pipeline.c
@@ -221,7 +221,7 @@ static void pipeline_finish_step(M_thread_pipeline_step_t *step, M_thread_pipeli
 	}
 
 	/* If system went down, abort, don't pass on */
-	if (!pipeline->status && idx != pipeline->num_steps-1)
+	if (rv == M_THREAD_PIPELINE_RESULT_SUCCESS && !pipeline->status && idx != pipeline->num_steps-1)
 		rv = M_THREAD_PIPELINE_RESULT_ABORT;
 
 	/* Complete task if last step, or failure */
-- 
2.43.0


From 60068e28b64b1c00edda6321cbb740f3436642be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 102/277] fix: a pipeline task stopped before its next step was
 reported as failed

---
 thread/m_thread_pipeline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/m_thread_pipeline.c b/thread/m_thread_pipeline.c
index 2795044..33d0767 100644
--- a/thread/m_thread_pipeline.c
+++ b/thread/m_thread_pipeline.c
@@ -237,7 +237,7 @@ static void pipeline_finish_step(M_thread_pipeline_step_t *step, M_thread_pipeli
 
 	/* Make sure system is still online, if not, don't enqueue, abort! */
 	if (!pipeline->status) {
-		pipeline_finish_task(pipeline, task, M_THREAD_PIPELINE_RESULT_FAIL);
+		pipeline_finish_task(pipeline, task, M_THREAD_PIPELINE_RESULT_ABORT);
 		return;
 	}
 
-- 
2.43.0


From 71277e1f727d89844b0f3089e80ac32a56954fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 103/277] fix: aborting a pipeline left a step waiting for ever
 on the next step's slot

---
 thread/m_thread_pipeline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thread/m_thread_pipeline.c b/thread/m_thread_pipeline.c
index 33d0767..8c24948 100644
--- a/thread/m_thread_pipeline.c
+++ b/thread/m_thread_pipeline.c
@@ -276,6 +276,10 @@ static void *pipeline_thread_cb(void *arg)
 	if (step->task) {
 		pipeline_finish_task(step->parent, step->task, M_THREAD_PIPELINE_RESULT_ABORT);
 		step->task = NULL;
+
+		/* The prior step may be waiting on this slot */
+		if (step->idx != 0)
+			M_thread_cond_signal(step->parent->steps[step->idx - 1].cond);
 	}
 
 	/* Dequeue and abort any queued tasks */
-- 
2.43.0


From 935cc5953744a62146acbfee3ece3c796441a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 104/277] fix: atomic subtraction of the smallest signed value
 overflowed where it is done by adding

---
 thread/m_atomic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thread/m_atomic.c b/thread/m_atomic.c
index e907407..c6c4537 100644
--- a/thread/m_atomic.c
+++ b/thread/m_atomic.c
@@ -753,7 +753,7 @@ M_uint32 M_atomic_sub_u32(volatile M_uint32 *ptr, M_uint32 val)
 	return atomic_fetch_sub_explicit((_Atomic M_uint32 *)ptr, val, memory_order_relaxed);
 #else
 	/* No other implemention provides an explicit subtraction */
-	return M_atomic_add_u32(ptr, (M_uint32)((M_int32)val * -1));
+	return M_atomic_add_u32(ptr, (M_uint32)0 - val);
 #endif
 }
 
@@ -768,7 +768,7 @@ M_uint64 M_atomic_sub_u64(volatile M_uint64 *ptr, M_uint64 val)
 	return atomic_fetch_sub_explicit((_Atomic M_uint64 *)ptr, val, memory_order_relaxed);
 #else
 	/* No other implemention provides an explicit subtraction */
-	return M_atomic_add_u64(ptr, (M_uint64)((M_int64)val * -1));
+	return M_atomic_add_u64(ptr, (M_uint64)0 - val);
 #endif
 }
 
-- 
2.43.0


From 51b80ab16b181d3e8e718da0f89e0cbad025129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 105/277] fix: clearing a thread-local value stored NULL, for
 which the destructor was called at thread exit

---
 thread/m_thread_tls.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thread/m_thread_tls.c b/thread/m_thread_tls.c
index 3b05434..fba5b60 100644
--- a/thread/m_thread_tls.c
+++ b/thread/m_thread_tls.c
@@ -178,8 +178,10 @@ M_bool M_thread_tls_setspecific(M_thread_tls_key_t key, const void *value)
 	M_thread_mutex_unlock(M_thread_tls_key_mutex);
 
 	/* If NULL is specified, we're clearing the value */
-	if (value == NULL)
+	if (value == NULL) {
 		M_hash_u64vp_remove(tls_store, key, M_TRUE);
+		return M_TRUE;
+	}
 
 	/* No longer in global context, operating on our own thread-specific pool.
 	 * Don't need to hold the lock any longer */
-- 
2.43.0


From e6de766607979a70281ffba89f1493ef636651ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 106/277] fix: a thread-local value's destructor that used
 thread-local storage read freed memory

---
 thread/m_thread_tls.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/thread/m_thread_tls.c b/thread/m_thread_tls.c
index fba5b60..517c8e2 100644
--- a/thread/m_thread_tls.c
+++ b/thread/m_thread_tls.c
@@ -66,6 +66,9 @@ static void M_thread_tls_destroy_store(void *tls_store)
 static void M_thread_tls_destroy_thread_key(void *value)
 {
 	M_thread_tls_value *tls_value = value;
+
+	if (tls_value == NULL)
+		return;
 	if (tls_value->destructor != NULL)
 		tls_value->destructor(tls_value->value);
 	M_free(tls_value);
@@ -104,6 +107,7 @@ void M_thread_tls_purge_thread(void)
 	M_hash_u64vp_enum_t *hashenum;
 	M_uint64             key;
 	M_list_u64_t        *keylist;
+	M_thread_tls_value  *tls_value;
 	size_t               i;
 	size_t               len;
 
@@ -132,7 +136,11 @@ void M_thread_tls_purge_thread(void)
 	 * hashtable) */
 	len = M_list_u64_len(keylist);
 	for (i=0; i<len; i++) {
-		M_hash_u64vp_remove(tls_store, M_list_u64_at(keylist, i), M_TRUE);
+		/* The destructor may use thread local storage, so the value must not be
+		 * destroyed while the hashtable is being modified */
+		tls_value = M_hash_u64vp_get_direct(tls_store, M_list_u64_at(keylist, i));
+		M_hash_u64vp_remove(tls_store, M_list_u64_at(keylist, i), M_FALSE);
+		M_thread_tls_destroy_thread_key(tls_value);
 	}
 	M_list_u64_destroy(keylist);
 
@@ -160,6 +168,7 @@ M_bool M_thread_tls_setspecific(M_thread_tls_key_t key, const void *value)
 	void              (*destructor)(void *) = NULL;
 	M_hash_u64vp_t     *tls_store           = NULL;
 	M_thread_tls_value *tls_value           = NULL;
+	M_thread_tls_value *old_value           = NULL;
 
 	M_thread_mutex_lock(M_thread_tls_key_mutex);
 
@@ -178,8 +187,10 @@ M_bool M_thread_tls_setspecific(M_thread_tls_key_t key, const void *value)
 	M_thread_mutex_unlock(M_thread_tls_key_mutex);
 
 	/* If NULL is specified, we're clearing the value */
+	old_value = M_hash_u64vp_get_direct(tls_store, key);
+	M_hash_u64vp_remove(tls_store, key, M_FALSE);
 	if (value == NULL) {
-		M_hash_u64vp_remove(tls_store, key, M_TRUE);
+		M_thread_tls_destroy_thread_key(old_value);
 		return M_TRUE;
 	}
 
@@ -190,6 +201,8 @@ M_bool M_thread_tls_setspecific(M_thread_tls_key_t key, const void *value)
 	tls_value->value      = (void *)((M_uintptr)value);
 	M_hash_u64vp_insert(tls_store, key, tls_value);
 
+	M_thread_tls_destroy_thread_key(old_value);
+
 	return M_TRUE;
 }
 
-- 
2.43.0


From 639b31da519ecf37a576d54f962d25997e0ec0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 107/277] fix: json: require a comma between array elements and
 object members

---
 formats/json/m_json_reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index c729efa..2dce9c9 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -207,7 +207,7 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 			return NULL;
 		}
 
-		if (!M_parser_peek_byte(parser, &c) && c != ',' && c != '}') {
+		if (M_parser_peek_byte(parser, &c) && c != ',' && c != '}') {
 			M_json_node_destroy(node);
 			*error = M_JSON_ERROR_OBJECT_UNEXPECTED_CHAR;
 			return NULL;
@@ -284,7 +284,7 @@ static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_js
 			return NULL;
 		}
 
-		if (!M_parser_peek_byte(parser, &c) && c != ',' && c != ']') {
+		if (M_parser_peek_byte(parser, &c) && c != ',' && c != ']') {
 			M_json_node_destroy(node);
 			*error = M_JSON_ERROR_ARRAY_UNEXPECTED_CHAR;
 			return NULL;
-- 
2.43.0


From 27a45ffc62d8f5cf0c576d99a2f77322736640c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 108/277] fix: json: read and write code points above U+FFFF as
 surrogate pairs

---
 formats/json/m_json_reader.c | 33 ++++++++++++++++++++++++++++-----
 formats/json/m_json_writer.c |  8 ++++++++
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index 2dce9c9..1238b34 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -316,6 +316,30 @@ static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_js
 	return node;
 }
 
+/* Read the 4 hex digits of a \u escape. A high surrogate that is followed by the escape of a low surrogate is
+ * combined with it. consumed is the number of bytes after the "u". */
+static M_bool M_json_read_codepoint(const unsigned char *s, size_t len, M_uint32 *codepoint, size_t *consumed)
+{
+	M_uint32 low;
+
+	if (len < 4 || !M_str_ishex_max((const char *)s, 4) ||
+		M_str_to_uint32_ex((const char *)s, 4, 16, codepoint, NULL) != M_STR_INT_SUCCESS)
+	{
+		return M_FALSE;
+	}
+	*consumed = 4;
+
+	if (*codepoint >= 0xD800 && *codepoint <= 0xDBFF && len >= 10 && s[4] == '\\' && s[5] == 'u' &&
+		M_str_ishex_max((const char *)s+6, 4) &&
+		M_str_to_uint32_ex((const char *)s+6, 4, 16, &low, NULL) == M_STR_INT_SUCCESS &&
+		low >= 0xDC00 && low <= 0xDFFF)
+	{
+		*codepoint = 0x10000 + ((*codepoint - 0xD800) << 10) + (low - 0xDC00);
+		*consumed  = 10;
+	}
+	return M_TRUE;
+}
+
 static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_json_error_t *error)
 {
 	M_json_node_t       *node;
@@ -328,6 +352,7 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 	unsigned char        ce;
 	unsigned char        cp = 0;
 	size_t               uchr_len;
+	size_t               esc_len;
 
 	(void)flags;
 
@@ -388,9 +413,7 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 				case 'u':
 					/* Check if we have enough data, it's a hex number, and it's a valid
 					 * character we can add to the buffer. */
-					if (M_parser_len(parser) < 6                                                            ||
-						!M_str_ishex_max((const char *)s+1, 4)                                              ||
-						M_str_to_uint32_ex((const char *)s+1, 4, 16, &codepoint, NULL) != M_STR_INT_SUCCESS ||
+					if (!M_json_read_codepoint(s+1, M_parser_len(parser)-2, &codepoint, &esc_len) ||
 						M_utf8_from_cp(uchr, sizeof(uchr), &uchr_len, codepoint) != M_UTF8_ERROR_SUCCESS)
 					{
 						if (flags & M_JSON_READER_REPLACE_BAD_CHARS) {
@@ -415,11 +438,11 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 					}
 					if (flags & M_JSON_READER_DONT_DECODE_UNICODE) {
 						M_buf_add_str(buf, "\\u");
-						M_buf_add_bytes(buf, s+1, 4);
+						M_buf_add_bytes(buf, s+1, esc_len);
 					} else {
 						M_buf_add_bytes(buf, uchr, uchr_len);
 					}
-					M_parser_consume(parser, 4);
+					M_parser_consume(parser, esc_len);
 					break;
 				default:
 					M_buf_cancel(buf);
diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index 4c9a14f..e82fa14 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -196,6 +196,14 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					if (flags & M_JSON_WRITER_DONT_ENCODE_UNICODE) {
 						M_buf_add_bytes(buf, node->data.json_string+i, (size_t)(p - (node->data.json_string+i)));
 					} else {
+						if (cp > 0xFFFF) {
+							/* Code points outside of the BMP are written as a surrogate pair. */
+							cp -= 0x10000;
+							M_buf_add_str(buf, "\\u");
+							M_snprintf(uchr, sizeof(uchr), "%04X", 0xD800 + (cp >> 10));
+							M_buf_add_str(buf, uchr);
+							cp = 0xDC00 + (cp & 0x3FF);
+						}
 						M_buf_add_str(buf, "\\u");
 						M_snprintf(uchr, sizeof(uchr), "%04X", cp);
 						M_buf_add_str(buf, uchr);
-- 
2.43.0


From c89bf5675096477f9321bc2369788d72792232a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 109/277] fix: json: replacing a bad unicode escape read past
 the data and dropped the wrong characters

---
 formats/json/m_json_reader.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index 1238b34..b109f5f 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -418,15 +418,12 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 					{
 						if (flags & M_JSON_READER_REPLACE_BAD_CHARS) {
 							size_t j;
-							/* Something isn't right. Remove the fist character because
- 							 * we know it's going to be bad. Go though up to 3 more and remove them
-							 * if they're hex. We want to try to fully remove the \u escape and this
-							 * will handle if it's a bad code point or not fully 4 hex characters. */
-							M_parser_consume(parser, 1);
-							for (j=1; j<4; j++) {
-								if (M_chr_ishex((char)s[1+j])) {
-									M_parser_consume(parser, 1);
-								}
+							size_t avail = M_parser_len(parser)-2;
+							/* Something isn't right. Remove up to 4 hex characters after the \u. We want to try to fully
+							 * remove the \u escape and this will handle if it's a bad code point or not fully 4 hex
+							 * characters. */
+							for (j=0; j<4 && j<avail && M_chr_ishex((char)s[1+j]); j++) {
+								M_parser_consume(parser, 1);
 							}
 							M_buf_add_byte(buf, '?');
 							break;
-- 
2.43.0


From ba39f202b65a1c89a96e8c9973cdbf6e138158aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 110/277] fix: json: the writer did not escape object keys and
 leaked on failure

---
 formats/json/m_json_writer.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index e82fa14..960f00c 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -34,6 +34,7 @@ static M_int64 JAVASCRIPT_MIN_INT = -9007199254740991LL;
 static M_int64 JAVASCRIPT_MAX_INT =  9007199254740991LL;
 
 static M_bool M_json_write_node(const M_json_node_t *node, M_buf_t *buf, size_t *depth, M_uint32 flags);
+static M_bool M_json_write_string(const char *str, M_buf_t *buf, M_uint32 flags);
 
 static void M_json_write_depth(M_buf_t *buf, size_t *depth, M_uint32 flags)
 {
@@ -74,9 +75,10 @@ static M_bool M_json_write_node_object(const M_json_node_t *node, M_buf_t *buf,
 	len = M_hash_strvp_enumerate(node->data.json_object, &hashenum);
 	while (M_hash_strvp_enumerate_next(node->data.json_object, hashenum, &key, &value)) {
 		M_json_write_depth(buf, depth, flags);
-		M_buf_add_byte(buf, '"');
-		M_buf_add_str(buf, key); 
-		M_buf_add_byte(buf, '"');
+		if (!M_json_write_string(key, buf, flags)) {
+			M_hash_strvp_enumerate_free(hashenum);
+			return M_FALSE;
+		}
 
 		if (flags & (M_JSON_WRITER_PRETTYPRINT_SPACE|M_JSON_WRITER_PRETTYPRINT_TAB))
 			M_buf_add_byte(buf, ' ');
@@ -84,8 +86,10 @@ static M_bool M_json_write_node_object(const M_json_node_t *node, M_buf_t *buf,
 		if (flags & (M_JSON_WRITER_PRETTYPRINT_SPACE|M_JSON_WRITER_PRETTYPRINT_TAB))
 			M_buf_add_byte(buf, ' ');
 
-		if (!M_json_write_node((const M_json_node_t *)value, buf, depth, flags))
+		if (!M_json_write_node((const M_json_node_t *)value, buf, depth, flags)) {
+			M_hash_strvp_enumerate_free(hashenum);
 			return M_FALSE;
+		}
 
 		len--;
 		if (len > 0) {
@@ -134,6 +138,14 @@ static M_bool M_json_write_node_array(const M_json_node_t *node, M_buf_t *buf, s
 }
 
 static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf, M_uint32 flags)
+{
+	if (buf == NULL || node == NULL || node->type != M_JSON_TYPE_STRING)
+		return M_FALSE;
+
+	return M_json_write_string(node->data.json_string, buf, flags);
+}
+
+static M_bool M_json_write_string(const char *str, M_buf_t *buf, M_uint32 flags)
 {
 	const char *p;
 	char        uchr[8];
@@ -142,13 +154,10 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 	size_t      len;
 	size_t      i;
 
-	if (buf == NULL || node == NULL || node->type != M_JSON_TYPE_STRING)
-		return M_FALSE;
-
 	M_buf_add_byte(buf, '"');
-	len = M_str_len(node->data.json_string);
+	len = M_str_len(str);
 	for (i=0; i<len; i++) {
-		c = node->data.json_string[i];
+		c = str[i];
 		switch (c) {
 			case '\b':
 				M_buf_add_str(buf, "\\b");
@@ -184,7 +193,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					M_snprintf(uchr, sizeof(uchr), "%04X", c);
 					M_buf_add_str(buf, uchr);
 				} else if ((unsigned char)c > 127) {
-					if (M_utf8_get_cp(node->data.json_string+i, &cp, &p) != M_UTF8_ERROR_SUCCESS) {
+					if (M_utf8_get_cp(str+i, &cp, &p) != M_UTF8_ERROR_SUCCESS) {
 						if (flags & M_JSON_WRITER_REPLACE_BAD_CHARS) {
 							M_buf_add_byte(buf, '?');
 						} else {
@@ -194,7 +203,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					}
 
 					if (flags & M_JSON_WRITER_DONT_ENCODE_UNICODE) {
-						M_buf_add_bytes(buf, node->data.json_string+i, (size_t)(p - (node->data.json_string+i)));
+						M_buf_add_bytes(buf, str+i, (size_t)(p - (str+i)));
 					} else {
 						if (cp > 0xFFFF) {
 							/* Code points outside of the BMP are written as a surrogate pair. */
@@ -212,7 +221,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					 * when we come back around to the start of the loop it will
 					 * move one forward. This needs to be the byte before the next
 					 * one that will be processed. */
-					i += (size_t)(p - (node->data.json_string+i)-1);
+					i += (size_t)(p - (str+i)-1);
 				} else {
 					M_buf_add_byte(buf, (unsigned char)c);
 				}
-- 
2.43.0


From 9c6cbd290a7220e7a71b907cc0b7fc24812f1c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 111/277] fix: json: large integers written without
 compatibility got a closing quote

---
 formats/json/m_json_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index 960f00c..daf0a45 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -242,7 +242,7 @@ static M_bool M_json_write_node_integer(const M_json_node_t *node, M_buf_t *buf,
 
 	M_buf_add_int(buf, node->data.json_integer);
 
-	if (node->data.json_integer < JAVASCRIPT_MIN_INT || node->data.json_integer > JAVASCRIPT_MAX_INT)
+	if (!(flags & M_JSON_WRITER_NUMBER_NOCOMPAT) && (node->data.json_integer < JAVASCRIPT_MIN_INT || node->data.json_integer > JAVASCRIPT_MAX_INT))
 		M_buf_add_byte(buf, '"');
 
 	return M_TRUE;
-- 
2.43.0


From 3a28fc3c2f8b4bc79468ce7ebc2f5a7ce9eb5efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 112/277] fix: json: numbers with leading zeros are not valid

---
 formats/json/m_json_reader.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index b109f5f..241b6f2 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -516,8 +516,20 @@ static M_json_node_t *M_json_read_number(M_parser_t *parser, M_uint32 flags, M_j
 {
 	M_json_node_t         *node;
 	M_decimal_t            decimal;
+	const unsigned char   *s;
+	size_t                 len;
+	size_t                 i;
 	enum M_DECIMAL_RETVAL  rv;
 
+	/* There must be a digit and no leading zeros. */
+	s   = M_parser_peek(parser);
+	len = M_parser_len(parser);
+	i   = (*s == '-')?1:0;
+	if (i >= len || !M_chr_isdigit((char)s[i]) || (s[i] == '0' && i+1 < len && M_chr_isdigit((char)s[i+1]))) {
+		*error = M_JSON_ERROR_INVALID_NUMBER;
+		return NULL;
+	}
+
 	rv = M_parser_read_decimal(parser, 0, !(flags & M_JSON_READER_ALLOW_DECIMAL_TRUNCATION), &decimal);
 	if ((!(flags & M_JSON_READER_ALLOW_DECIMAL_TRUNCATION) && rv != M_DECIMAL_SUCCESS) ||
 		((flags & M_JSON_READER_ALLOW_DECIMAL_TRUNCATION) && rv != M_DECIMAL_SUCCESS && rv != M_DECIMAL_TRUNCATION))
-- 
2.43.0


From b3895f80f88c3840ae688c3b90df87f2c70098d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 113/277] fix: json: the value of a member that can't be
 inserted leaked

---
 formats/json/m_json_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index 241b6f2..6904611 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -198,7 +198,8 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 		}
 
 		/* Add the value to the hashtable. */
-		M_json_object_insert(node, M_json_get_string(key_node), val_node);
+		if (!M_json_object_insert(node, M_json_get_string(key_node), val_node))
+			M_json_node_destroy(val_node);
 		M_json_node_destroy(key_node);
 
 		/* Check for a member separator and advance if necessary */
-- 
2.43.0


From 7a931bece71d2e3b5974fc3559c8bfa8bd2c11c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 114/277] fix: json: the text of an empty string node was NULL

---
 formats/json/m_json.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/formats/json/m_json.c b/formats/json/m_json.c
index 9c56436..c46e743 100644
--- a/formats/json/m_json.c
+++ b/formats/json/m_json.c
@@ -811,5 +811,7 @@ char *M_json_get_value_dup(const M_json_node_t *node)
 	}
 
 	out = M_buf_finish_str(buf, NULL);
+	if (out == NULL)
+		out = M_strdup("");
 	return out;
 }
-- 
2.43.0


From c245ca1928089bfaaf2baaa6cf1b60758ac12706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 115/277] fix: jsonpath: recursive array segments skipped
 objects and an index before the start dropped the whole list

---
 formats/json/m_json_jsonpath.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/formats/json/m_json_jsonpath.c b/formats/json/m_json_jsonpath.c
index e049e1f..7da412f 100644
--- a/formats/json/m_json_jsonpath.c
+++ b/formats/json/m_json_jsonpath.c
@@ -152,7 +152,7 @@ static M_list_u64_t *M_json_jsonpath_search_array_offsets(const M_json_node_t *n
 		} else {
 			/* 1 exact index. */
 			if (!M_json_jsonpath_search_array_offset_val(slice_parts[0], slice_parts_lens[0], array_len, &slice_start)) {
-				goto error;
+				goto slice_done;
 			}
 			/* Check that we have a valid index. */
 			if (slice_start < array_len) {
@@ -225,14 +225,11 @@ static void M_json_jsonpath_search(const M_json_node_t *node, M_list_str_t *segm
 	}
 
 	if (node->type == M_JSON_TYPE_OBJECT) {
-		/* Invalid search. We can't index an object. */
-		if (*seg == '[')
-			return;
-
+		/* Array segments do not match members, they can only be found further down. */
 		M_hash_strvp_enumerate(node->data.json_object, &hashenum);
 		while (M_hash_strvp_enumerate_next(node->data.json_object, hashenum, &key, &val)) {
 			/* If a wildcard match, or an exact name match, its a match */
-			if (M_str_eq(seg, "*") || M_str_caseeq(seg, key)) {
+			if (*seg != '[' && (M_str_eq(seg, "*") || M_str_caseeq(seg, key))) {
 				M_json_jsonpath_search(val, segments, seg_offset+1, M_FALSE, matches, num_matches);
 			}
 
@@ -247,7 +244,7 @@ static void M_json_jsonpath_search(const M_json_node_t *node, M_list_str_t *segm
 		array_len = M_json_array_len(node);
 		if (M_str_eq(seg, "[*]")) {
 			for (i=0; i<array_len; i++) {
-				M_json_jsonpath_search(M_json_array_at(node, i), segments, seg_offset+1, search_recursive, matches, num_matches);
+				M_json_jsonpath_search(M_json_array_at(node, i), segments, seg_offset+1, M_FALSE, matches, num_matches);
 			}
 		/* We have an indexed value lets try to find that index. */
 		} else if (*seg == '[') {
-- 
2.43.0


From c59e1ff1aa1b060203dcf59f6d54a7ba3d2dcae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 116/277] fix: a decimal's exponent could be preceded by
 whitespace

---
 base/math/m_decimal.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index fb2cb00..2f8159a 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -674,6 +674,11 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 		ptr      = end+1;
 		num_read = (size_t)(ptr - string);
 		len_left = len - num_read;
+
+		/* The exponent can't be preceded by whitespace */
+		if (len_left > 0 && M_chr_isspace(*ptr))
+			return M_DECIMAL_INVALID;
+
 		intrv    = M_str_to_int64_ex(ptr, len_left, 10, &num, &end);
 		switch (intrv) {
 			case M_STR_INT_OVERFLOW:
-- 
2.43.0


From 22a774601ef16882ebe1b6a52ced00b057b3aba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 117/277] fix: delivering queued events read an io object
 another object's callback had destroyed

---
 io/m_event.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/io/m_event.c b/io/m_event.c
index c417479..c643a46 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -875,13 +875,16 @@ static void M_event_deliver(M_event_t *event, M_io_t *io, size_t layer_id, M_eve
 	void                *cb_data   = NULL;
 	M_event_io_t        *ioev      = NULL;
 
-	if (io == NULL || io->flags & M_IO_FLAG_USER_DESTROY)
+	if (io == NULL)
 		return;
 
-	/* IO object has been removed */
+	/* IO object has been removed (and may have been destroyed, must not be dereferenced) */
 	if (!M_hashtable_get(event->u.loop.reg_ios, io, (void **)&ioev))
 		return;
 
+	if (io->flags & M_IO_FLAG_USER_DESTROY)
+		return;
+
 	num_layers = M_list_len(io->layer);
 	for (i=layer_id; i<num_layers && !consumed; i++) {
 		M_io_layer_t *layer = M_io_layer_at(io, i);
@@ -943,6 +946,11 @@ static void M_event_queue_deliver(M_event_t *event)
 
 		io = M_CAST_OFF_CONST(M_io_t *, key);
 
+		/* A callback of another object delivered in this same pass may have removed or destroyed
+		 * this one, in which case it must not be dereferenced */
+		if (!M_hashtable_get(event->u.loop.reg_ios, io, NULL))
+			continue;
+
 		if (io->flags & M_IO_FLAG_USER_DESTROY)
 			continue;
 
-- 
2.43.0


From 9f503960e65acb6fcfb0d780021fee6ded504101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 118/277] fix: read and write events could be delivered before
 the connected event

---
 io/m_event.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/io/m_event.c b/io/m_event.c
index c643a46..3464ac4 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -941,6 +941,7 @@ static void M_event_queue_deliver(M_event_t *event)
 	while (M_hashtable_enumerate_next(event->u.loop.pending_events, &enumevent, &key, &val)) {
 		M_io_t            *io     = NULL;
 		M_event_pending_t *entry  = M_CAST_OFF_CONST(M_event_pending_t *, val);
+		const M_uint16     conn   = (M_uint16)(1 << M_EVENT_TYPE_CONNECTED);
 		size_t             i;
 		size_t             j;
 
@@ -954,6 +955,12 @@ static void M_event_queue_deliver(M_event_t *event)
 		if (io->flags & M_IO_FLAG_USER_DESTROY)
 			continue;
 
+		/* A CONNECTED event queued for any layer must be delivered before OS events of lower layers */
+		for (j=0; entry->events[j] != 0; j++) {
+			if (entry->events[j] & conn)
+				M_event_deliver(event, io, j, M_EVENT_TYPE_CONNECTED);
+		}
+
 		/* Process all events, even if there are no events for this layer, the high
 		 * bit is set if there are events for a higher layer */
 		for (j=0; entry->events[j] != 0; j++) {
-- 
2.43.0


From cc577d5ec6dee7dc45dc44fcc9f6e98b81c633ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 119/277] fix: a bandwidth shaping layer could not be used
 after a close or reconnect

---
 io/m_io_bwshaping.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index fbd3b80..513a284 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -708,17 +708,20 @@ static M_bool M_io_bwshaping_reset_cb(M_io_layer_t *layer)
 	if (handle == NULL)
 		return M_FALSE;
 
-	M_mem_set(&handle->starttv, 0, sizeof(handle->starttv));
+	/* The handle may be used again after a reset, so the trackers must remain usable */
+	M_time_elapsed_start(&handle->starttv);
 	M_io_bwshaping_bwtrack_destroy(handle->in_bw);
-	handle->in_bw       = NULL;
+	handle->in_bw            = M_io_bwshaping_bwtrack_create(handle, M_IO_BWSHAPING_DIRECTION_IN);
 	M_mem_set(&handle->in_lasttv, 0, sizeof(handle->in_lasttv));
-	handle->in_waiting  = M_FALSE;
-	handle->in_fullread = M_FALSE;
+	handle->in_bytes         = 0;
+	handle->in_waiting       = M_FALSE;
+	handle->in_fullread      = M_FALSE;
 	M_io_bwshaping_bwtrack_destroy(handle->out_bw);
-	handle->out_bw      = NULL;
+	handle->out_bw           = M_io_bwshaping_bwtrack_create(handle, M_IO_BWSHAPING_DIRECTION_OUT);
 	M_mem_set(&handle->out_lasttv, 0, sizeof(handle->out_lasttv));
-	handle->out_bytes   = 0;
-	handle->out_waiting = M_FALSE;
+	handle->out_bytes        = 0;
+	handle->out_waiting      = M_FALSE;
+	handle->is_disconnecting = M_FALSE;
 
 	return M_TRUE;
 }
@@ -730,6 +733,8 @@ static void M_io_bwshaping_destroy_cb(M_io_layer_t *layer)
 	if (handle == NULL)
 		return;
 
+	M_io_bwshaping_bwtrack_destroy(handle->in_bw);
+	M_io_bwshaping_bwtrack_destroy(handle->out_bw);
 	M_free(handle);
 }
 
-- 
2.43.0


From 01747cae75b827edaf9ee2fda3680a64c787d382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 120/277] fix: a read buffer layer that was full when more data
 arrived never read again

---
 io/m_io_buffer.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/io/m_io_buffer.c b/io/m_io_buffer.c
index 2ea8902..00587c3 100644
--- a/io/m_io_buffer.c
+++ b/io/m_io_buffer.c
@@ -75,14 +75,20 @@ static M_bool M_io_buffer_process_read_cb(M_io_layer_t *layer)
 	if (alloc_size < 16 * 1024)
 		alloc_size = 16 * 1024;
 
-	req_size = alloc_size - M_buf_len(handle->readbuf);
+	if (alloc_size > handle->max_read_buffer)
+		alloc_size = handle->max_read_buffer;
 
-	/* Buffer is full, can't read.  Don't pass on event, application already knows there is data. */
-	if (req_size == 0) {
+	/* Buffer is full, can't read.  Don't pass on event, application already knows there is data.
+	 * Must remember to read again once the application made room. */
+	if (M_buf_len(handle->readbuf) >= alloc_size) {
+		handle->hit_max_read = M_TRUE;
 		return M_TRUE; /* consume */
 	}
+	req_size = alloc_size - M_buf_len(handle->readbuf);
 	len      = req_size;
 	buf      = M_buf_direct_write_start(handle->readbuf, &len);
+	if (len > req_size)
+		len = req_size;
 
 	err      = M_io_layer_read(M_io_layer_get_io(layer), M_io_layer_get_index(layer)-1, buf, &len, NULL);
 	if (err != M_IO_ERROR_SUCCESS) {
-- 
2.43.0


From 98851bb695ff3c07978a0e570b67c2e1b7148d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 121/277] fix: data beyond a read buffer layer's size was lost
 when the peer disconnected

---
 io/m_io_buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io/m_io_buffer.c b/io/m_io_buffer.c
index 00587c3..58d530e 100644
--- a/io/m_io_buffer.c
+++ b/io/m_io_buffer.c
@@ -190,6 +190,11 @@ static M_io_error_t M_io_buffer_read_cb(M_io_layer_t *layer, unsigned char *buf,
 	}
 
 	len = *read_len;
+	/* Nothing left, but the last fill stopped because of the buffer size.  There may be more that no
+	 * event will be delivered for anymore if the connection is going down. */
+	if (M_buf_len(handle->readbuf) == 0 && handle->hit_max_read)
+		M_io_buffer_process_read_cb(layer);
+
 	if (M_buf_len(handle->readbuf) < len)
 		len = M_buf_len(handle->readbuf);
 
-- 
2.43.0


From 47eb957fbf16bf203559625acda02a6857ab7934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 122/277] fix: closing an io object that cannot be closed left
 its event loop locked

---
 io/m_io.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/io/m_io.c b/io/m_io.c
index 3b5cc11..a6b2198 100644
--- a/io/m_io.c
+++ b/io/m_io.c
@@ -249,6 +249,7 @@ M_bool M_io_close(M_io_t *io)
 {
 	ssize_t            i;
 	size_t             num;
+	M_bool             retval = M_TRUE;
 
 	if (io == NULL || io->flags & M_IO_FLAG_USER_DESTROY)
 		return M_FALSE;
@@ -261,19 +262,20 @@ M_bool M_io_close(M_io_t *io)
 	num = M_list_len(io->layer);
 	for (i=(ssize_t)num - 1; i >= 0; i--) {
 		M_io_layer_t *layer = M_io_layer_at(io, (size_t)i);
-		if (layer->cb.cb_reset == NULL)
-			return M_FALSE;
-		if (!layer->cb.cb_reset(layer))
-			return M_FALSE;
+		if (layer->cb.cb_reset == NULL || !layer->cb.cb_reset(layer)) {
+			retval = M_FALSE;
+			break;
+		}
 	}
 
-	io->flags = M_IO_FLAG_NONE;
+	if (retval)
+		io->flags = M_IO_FLAG_NONE;
 
 	if (io->reg_event) {
 		M_io_unlock(io);
 	}
 
-	return M_TRUE;
+	return retval;
 }
 
 static void M_io_destroy_full(M_io_t *io)
-- 
2.43.0


From ad3b25d0ef50bb7c813bc2329ec2742af3b40686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 123/277] fix: a client connection with writes buffered when it
 was disconnected never reported its end

---
 io/net/m_io_netdns.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/net/m_io_netdns.c b/io/net/m_io_netdns.c
index e67cec9..3ae2573 100644
--- a/io/net/m_io_netdns.c
+++ b/io/net/m_io_netdns.c
@@ -45,7 +45,7 @@ static M_io_error_t M_io_netdns_read_cb(M_io_layer_t *layer, unsigned char *buf,
 
 	/* Relay to underlying io object */
 	err = M_io_read_meta(handle->data.netdns.io, buf, *read_len, read_len, meta);
-	if (err != M_IO_ERROR_SUCCESS && err != M_IO_ERROR_WOULDBLOCK) {
+	if (M_io_error_is_critical(err)) {
 		if (err == M_IO_ERROR_DISCONNECT) {
 			handle->state = M_IO_NET_STATE_DISCONNECTED;
 		} else {
@@ -74,7 +74,7 @@ static M_io_error_t M_io_netdns_write_cb(M_io_layer_t *layer, const unsigned cha
 
 	/* Relay to io object */
 	err = M_io_write_meta(handle->data.netdns.io, buf, *write_len, write_len, meta);
-	if (err != M_IO_ERROR_SUCCESS && err != M_IO_ERROR_WOULDBLOCK) {
+	if (M_io_error_is_critical(err)) {
 		handle->hard_down = M_TRUE;
 		if (err == M_IO_ERROR_DISCONNECT) {
 			handle->state = M_IO_NET_STATE_DISCONNECTED;
-- 
2.43.0


From 3e56b8ecfd969becbb7fbab4899378b6afc25e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 124/277] fix: stacked read buffer layers lost data at
 disconnect

---
 io/m_io_buffer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/io/m_io_buffer.c b/io/m_io_buffer.c
index 58d530e..448a059 100644
--- a/io/m_io_buffer.c
+++ b/io/m_io_buffer.c
@@ -190,9 +190,9 @@ static M_io_error_t M_io_buffer_read_cb(M_io_layer_t *layer, unsigned char *buf,
 	}
 
 	len = *read_len;
-	/* Nothing left, but the last fill stopped because of the buffer size.  There may be more that no
-	 * event will be delivered for anymore if the connection is going down. */
-	if (M_buf_len(handle->readbuf) == 0 && handle->hit_max_read)
+	/* Nothing left, but there may be more below that no event will be delivered for anymore if the
+	 * connection is going down, as the last fill stopped due to the size of a buffer. */
+	if (M_buf_len(handle->readbuf) == 0)
 		M_io_buffer_process_read_cb(layer);
 
 	if (M_buf_len(handle->readbuf) < len)
-- 
2.43.0


From 50c2907324686b683729c8570ecc42287cb29a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:44 +0000
Subject: [PATCH 125/277] fix: regular expressions lost context between
 matches, lost empty matches, and M_re_eq missed whole matches that aren't the
 first

---
 text/re/m_re.c         | 76 ++++++++++++++++++++----------------------
 text/re/m_re_int.h     |  1 -
 text/re/m_re_match.c   | 15 ---------
 text/re/mtre/mregex.h  |  4 ++-
 text/re/mtre/regexec.c | 31 ++++++++++++-----
 5 files changed, 62 insertions(+), 65 deletions(-)

diff --git a/text/re/m_re.c b/text/re/m_re.c
index 7606b75..0cd62e9 100644
--- a/text/re/m_re.c
+++ b/text/re/m_re.c
@@ -74,25 +74,20 @@ void M_re_destroy(M_re_t *re)
 	M_free(re);
 }
 
-M_bool M_re_search(const M_re_t *re, const char *str, M_re_match_t **match)
+/* Offsets in match are relative to the start of str, regardless of where the search starts. */
+static M_bool M_re_search_from(const M_re_t *re, const char *str, size_t start, M_re_match_t **match)
 {
 	regmatch_t    *pmatch     = NULL;
 	reg_errcode_t  ret;
 	size_t         num_pmatch = 0;
 	size_t         i;
 
-	if (re == NULL)
-		return M_FALSE;
-
-	if (str == NULL)
-		str = "";
-
 	if (match != NULL) {
 		num_pmatch = NUM_PMATCH;
 		pmatch     = M_malloc_zero(num_pmatch * sizeof(*pmatch));
 	}
 
-	ret = mregexec((const regex_t *)re, str, num_pmatch, pmatch);
+	ret = mregexec((const regex_t *)re, str, start, M_FALSE, num_pmatch, pmatch);
 	if (ret != REG_OK) {
 		M_free(pmatch);
 		return M_FALSE;
@@ -101,7 +96,7 @@ M_bool M_re_search(const M_re_t *re, const char *str, M_re_match_t **match)
 	if (match != NULL) {
 		*match = M_re_match_create();
 		for (i=0; i<num_pmatch; i++) {
-			if ((pmatch[i].rm_so == 0 && pmatch[i].rm_eo == 0) || pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1) {
+			if (pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1) {
 				continue;
 			}
 			M_re_match_insert(*match, i, (size_t)pmatch[i].rm_so, (size_t)(pmatch[i].rm_eo - pmatch[i].rm_so));
@@ -112,6 +107,17 @@ M_bool M_re_search(const M_re_t *re, const char *str, M_re_match_t **match)
 	return M_TRUE;
 }
 
+M_bool M_re_search(const M_re_t *re, const char *str, M_re_match_t **match)
+{
+	if (re == NULL)
+		return M_FALSE;
+
+	if (str == NULL)
+		str = "";
+
+	return M_re_search_from(re, str, 0, match);
+}
+
 M_bool M_re_eq_start(const M_re_t *re, const char *str)
 {
 	M_re_match_t *match;
@@ -141,33 +147,13 @@ M_bool M_re_eq_start(const M_re_t *re, const char *str)
 
 M_bool M_re_eq(const M_re_t *re, const char *str)
 {
-	M_re_match_t *match;
-	size_t        offset = 0;
-	size_t        mlen   = 0;
-	size_t        slen;
-	M_bool        ret;
-
 	if (re == NULL)
 		return M_FALSE;
 
 	if (str == NULL)
 		str = "";
 
-	ret = M_re_search(re, str, &match);
-	if (!ret)
-		return M_FALSE;
-
-	slen = M_str_len(str);
-	M_re_match_idx(match, 0, &offset, &mlen);
-
-	if (offset == 0 && mlen == slen) {
-		ret = M_TRUE;
-	} else {
-		ret = M_FALSE;
-	}
-
-	M_re_match_destroy(match);
-	return ret;
+	return mregexec((const regex_t *)re, str, 0, M_TRUE, 0, NULL) == REG_OK;
 }
 
 M_list_t *M_re_matches(const M_re_t *re, const char *str)
@@ -184,22 +170,34 @@ M_list_t *M_re_matches(const M_re_t *re, const char *str)
 	size_t offset;
 	size_t len;
 
-	if (re == NULL || M_str_isempty(str))
+	if (re == NULL || str == NULL)
 		return NULL;
 
 	matches = M_list_create(&lcbs, M_LIST_NONE);
 
 	pos = 0;
-	while (M_re_search(re, str+pos, &match)) {
+	while (M_re_search_from(re, str, pos, &match)) {
 		if (!M_re_match_idx(match, 0, &offset, &len)) {
-			M_list_destroy(matches, M_TRUE);
-			return NULL;
+			M_re_match_destroy(match);
+			break;
 		}
 
-		M_re_match_adjust_offset(match, pos);
 		M_list_insert(matches, match);
 
-		pos += offset + len;
+		pos = offset + len;
+		if (len == 0) {
+			/* Nothing was consumed, don't find this match again. */
+			if (str[pos] == '\0')
+				break;
+			do {
+				pos++;
+			} while ((((unsigned char)str[pos]) & 0xC0) == 0x80);
+		}
+	}
+
+	if (M_list_len(matches) == 0) {
+		M_list_destroy(matches, M_TRUE);
+		return NULL;
 	}
 
 	return matches;
@@ -213,7 +211,7 @@ M_list_str_t *M_re_find_all(const M_re_t *re, const char *str)
 	size_t        len;
 	size_t        i;
 
-	if (re == NULL || M_str_isempty(str))
+	if (re == NULL || str == NULL)
 		return NULL;
 
 	matches = M_re_matches(re, str);
@@ -236,7 +234,7 @@ M_list_str_t *M_re_find_all(const M_re_t *re, const char *str)
 		}
 
 		M_buf_add_bytes(buf, str+offset, mlen);
-		M_list_str_insert(all, M_buf_peek(buf));
+		M_list_str_insert(all, M_str_safe(M_buf_peek(buf)));
 	}
 
 	M_buf_cancel(buf);
@@ -342,8 +340,6 @@ char *M_re_sub(const M_re_t *re, const char *repl, const char *str)
 
 	if (re == NULL || str == NULL)
 		return NULL;
-	if (*str == '\0')
-		return M_strdup("");
 
 	/* Try and find all the matches. */
 	matches = M_re_matches(re, str);
diff --git a/text/re/m_re_int.h b/text/re/m_re_int.h
index f764750..3513977 100644
--- a/text/re/m_re_int.h
+++ b/text/re/m_re_int.h
@@ -56,6 +56,5 @@ void M_re_match_insert(M_re_match_t *match, size_t idx, size_t start, size_t len
  * \param[in] adjust Adjustment offset from the start of the evaluated
  *                   string.
  */
-void M_re_match_adjust_offset(M_re_match_t *match, size_t adjust);
 
 #endif /* __M_RE_INT_H__ */
diff --git a/text/re/m_re_match.c b/text/re/m_re_match.c
index 263cfbc..56bdc92 100644
--- a/text/re/m_re_match.c
+++ b/text/re/m_re_match.c
@@ -133,18 +133,3 @@ M_bool M_re_match_idx(const M_re_match_t *match, size_t idx, size_t *offset, siz
 	*len    = entry->len;
 	return M_TRUE;
 }
-
-void M_re_match_adjust_offset(M_re_match_t *match, size_t adjust)
-{
-	M_hash_u64vp_enum_t *he;
-	M_re_match_entry_t  *entry;
-
-	if (match == NULL)
-		return;
-
-	M_hash_u64vp_enumerate(match->idx_captures, &he);
-	while (M_hash_u64vp_enumerate_next(match->idx_captures, he, NULL, (void **)&entry)) {
-		entry->offset += adjust;
-	}
-	M_hash_u64vp_enumerate_free(he);
-}
diff --git a/text/re/mtre/mregex.h b/text/re/mtre/mregex.h
index 668bbf8..1636661 100644
--- a/text/re/mtre/mregex.h
+++ b/text/re/mtre/mregex.h
@@ -40,7 +40,9 @@ typedef enum {
 } reg_errcode_t;
 
 reg_errcode_t mregcomp(regex_t *preg, const char *regex, regex_flags_t cflags);
-reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t nmatch, regmatch_t *pmatch);
+/* start_ofs: Offset in string to start searching at. What precedes it is still considered by assertions.
+ * whole: The match must start at the start offset and span the remaining string. */
+reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t start_ofs, M_bool whole, size_t nmatch, regmatch_t *pmatch);
 void mregfree(regex_t *);
 
 #endif
diff --git a/text/re/mtre/regexec.c b/text/re/mtre/regexec.c
index dbf2de0..33f2209 100644
--- a/text/re/mtre/regexec.c
+++ b/text/re/mtre/regexec.c
@@ -180,7 +180,7 @@ typedef struct {
 
 
 static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const void *string,
-		regoff_t *match_tags, regoff_t *match_end_ofs)
+		size_t start_ofs, M_bool whole, regoff_t *match_tags, regoff_t *match_end_ofs)
 {
 	/* State variables required by GET_NEXT_WCHAR. */
 	M_uint32       prev_c        = 0;
@@ -276,13 +276,26 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const void *s
 		reach_pos[i].pos = -1;
 	}
 
+	/* When not starting at the beginning, what precedes the start still decides if assertions hold. */
+	if (start_ofs > 0) {
+		const char *prev = str_byte + start_ofs - 1;
+		while (prev > str_byte && (((unsigned char)*prev) & 0xC0) == 0x80) {
+			prev--;
+		}
+		if (M_utf8_get_cp(prev, &next_c, &next_s) != M_UTF8_ERROR_SUCCESS) {
+			ret = REG_NOMATCH;
+			goto error_exit;
+		}
+		str_byte += start_ofs;
+	}
+
 	GET_NEXT_WCHAR();
-	pos = 0;
+	pos = (regoff_t)start_ofs;
 
 	reach_next_i = reach_next;
 	while (1) {
 		/* If no match found yet, add the initial states to `reach_next'. */
-		if (match_eo < 0) {
+		if (match_eo < 0 && (!whole || pos == (regoff_t)start_ofs)) {
 			trans_i = tnfa->initial;
 			while (trans_i->state != NULL) {
 				if (reach_pos[trans_i->state_id].pos < pos) {
@@ -306,7 +319,7 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const void *s
 						}
 					}
 
-					if (reach_next_i->state == tnfa->final_trans) {
+					if (reach_next_i->state == tnfa->final_trans && (!whole || next_c == '\0')) {
 						match_eo  = pos;
 						new_match = 1;
 						for (i = 0; i < num_tags; i++) {
@@ -417,7 +430,7 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const void *s
 						reach_pos[trans_i->state_id].pos  = pos;
 						reach_pos[trans_i->state_id].tags = &reach_next_i->tags;
 
-						if (reach_next_i->state == tnfa->final_trans
+						if (reach_next_i->state == tnfa->final_trans && (!whole || next_c == '\0')
 								&& (match_eo == -1 || (num_tags > 0 && reach_next_i->tags[0] <= match_tags[0])))
 						{
 							match_eo  = pos;
@@ -439,7 +452,9 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const void *s
 							/* The new path wins. */
 							tmp_iptr                           = *reach_pos[trans_i->state_id].tags;
 							*reach_pos[trans_i->state_id].tags = tmp_tags;
-							if (trans_i->state == tnfa->final_trans) {
+							if (trans_i->state == tnfa->final_trans && (!whole || next_c == '\0')
+									&& (match_eo == -1 || (num_tags > 0 && tmp_tags[0] <= match_tags[0])))
+							{
 								match_eo  = pos;
 								new_match = 1;
 
@@ -538,7 +553,7 @@ static void tre_fill_pmatch(size_t nmatch, regmatch_t pmatch[],
 }
 
 
-reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t nmatch, regmatch_t *pmatch)
+reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t start_ofs, M_bool whole, size_t nmatch, regmatch_t *pmatch)
 {
 	tre_tnfa_t    *tnfa = preg->tnfa;
 	reg_errcode_t  status;
@@ -549,7 +564,7 @@ reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t nmatch, r
 		tags = M_malloc(sizeof(*tags) * (size_t)tnfa->num_tags);
 
 	/* Parallel matcher. */
-	status = tre_tnfa_run_parallel(tnfa, string, tags, &eo);
+	status = tre_tnfa_run_parallel(tnfa, string, start_ofs, whole, tags, &eo);
 
 	/* A match was found, so fill the submatch registers. */
 	if (status == REG_OK)
-- 
2.43.0


From 54ec4c9d9a99f69519920bf3332f852dbe6e26d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:44 +0000
Subject: [PATCH 126/277] fix: regular expressions with ungreedy repetitions
 dropped matches that start earlier or are shorter

---
 text/re/mtre/regcomp.c |  5 +++++
 text/re/mtre/regexec.c | 13 ++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/text/re/mtre/regcomp.c b/text/re/mtre/regcomp.c
index a574a8e..61f896c 100644
--- a/text/re/mtre/regcomp.c
+++ b/text/re/mtre/regcomp.c
@@ -2916,6 +2916,11 @@ reg_errcode_t mregcomp(regex_t *preg, const char *regex, regex_flags_t cflags)
 	if (errcode != REG_OK)
 		ERROR_EXIT(errcode);
 
+	/* The first tag is the start of the match. The earliest one always wins. */
+	if (tag_directions != NULL) {
+		tag_directions[0] = TRE_TAG_MINIMIZE;
+	}
+
 	/* Add a dummy node for the final state. */
 	tmp_ast_l = tree;
 	tmp_ast_r = tre_ast_new_literal(mem, 0, 0, parse_ctx.position);
diff --git a/text/re/mtre/regexec.c b/text/re/mtre/regexec.c
index 33f2209..b6df98a 100644
--- a/text/re/mtre/regexec.c
+++ b/text/re/mtre/regexec.c
@@ -337,7 +337,7 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const void *s
 
 			reach_next_i->state = NULL;
 		} else {
-			if (num_tags == 0 || reach_next_i == reach_next) {
+			if ((match_eo >= 0 && num_tags == 0) || reach_next_i == reach_next) {
 				/* We have found a match. */
 				break;
 			}
@@ -368,10 +368,17 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const void *s
 					int end   = tnfa->minimal_tags[i];
 					int start = tnfa->minimal_tags[i+1];
 
-					if (end >= num_tags) {
+					/* Without tags only if there is a match matters. Otherwise, a match
+					 * that starts earlier always wins. */
+					if (num_tags == 0) {
 						skip = M_TRUE;
 						break;
-					} else if (reach_i->tags[start] == match_tags[start] && reach_i->tags[end] < match_tags[end]) {
+					} else if (reach_i->tags[0] < match_tags[0]) {
+						break;
+					} else if (end >= num_tags) {
+						skip = M_TRUE;
+						break;
+					} else if (reach_i->tags[start] == match_tags[start] && reach_i->tags[end] != match_tags[end]) {
 						skip = M_TRUE;
 						break;
 					}
-- 
2.43.0


From fcfdbc5a99ff999729267acb4b53c6857473bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 127/277] fix: nested counted repetitions in regular
 expressions matched the wrong strings

---
 text/re/mtre/regcomp.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/text/re/mtre/regcomp.c b/text/re/mtre/regcomp.c
index 61f896c..3cf813c 100644
--- a/text/re/mtre/regcomp.c
+++ b/text/re/mtre/regcomp.c
@@ -1989,9 +1989,7 @@ static reg_errcode_t tre_expand_ast(tre_mem_t mem, tre_stack_t *stack, tre_ast_n
 	reg_errcode_t status        = REG_OK;
 	size_t        bottom        = tre_stack_num_objects(stack);
 	int           pos_add       = 0;
-	int           pos_add_total = 0;
 	int           max_pos       = 0;
-	int           iter_depth    = 0;
 
 	STACK_PUSHR(stack, voidptr, ast);
 	STACK_PUSHR(stack, int, EXPAND_RECURSE);
@@ -2051,7 +2049,6 @@ static reg_errcode_t tre_expand_ast(tre_mem_t mem, tre_stack_t *stack, tre_ast_n
 							if (iter->min > 1 || iter->max > 1) {
 								pos_add = 0;
 							}
-							iter_depth++;
 						}
 						break;
 
@@ -2063,17 +2060,21 @@ static reg_errcode_t tre_expand_ast(tre_mem_t mem, tre_stack_t *stack, tre_ast_n
 			case EXPAND_AFTER_ITER:
 				{
 					tre_iteration_t *iter = node->obj;
-					int              pos_add_last;
+					int              pos_add_saved;
 
-					pos_add      = tre_stack_pop_int(stack);
-					pos_add_last = pos_add;
+					/* Expanding the argument of an iteration that isn't expanded itself
+					   already moved everything that follows. */
+					pos_add_saved = tre_stack_pop_int(stack);
 
 					if (iter->min > 1 || iter->max > 1) {
+						int             pos_add_arg  = pos_add;
 						tre_ast_node_t *seq1         = NULL;
 						tre_ast_node_t *seq2         = NULL;
-						int             pos_add_save = pos_add;
+						int             pos_add_save = pos_add_saved;
 						int             j;
 
+						pos_add = pos_add_saved;
+
 						/* Create a catenated sequence of copies of the node. */
 						for (j = 0; j < iter->min; j++) {
 							tre_ast_node_t *copy = NULL;
@@ -2145,7 +2146,9 @@ static reg_errcode_t tre_expand_ast(tre_mem_t mem, tre_stack_t *stack, tre_ast_n
 							}
 						}
 
-						pos_add = pos_add_save;
+						/* What follows moves by all but one of the copies, and by what
+						   expanding the argument added to each of them. */
+						pos_add = pos_add_save + pos_add_arg;
 						if (seq1 == NULL) {
 							seq1 = seq2;
 						} else if (seq2 != NULL) {
@@ -2159,12 +2162,6 @@ static reg_errcode_t tre_expand_ast(tre_mem_t mem, tre_stack_t *stack, tre_ast_n
 						node->obj  = seq1->obj;
 						node->type = seq1->type;
 					}
-
-					iter_depth--;
-					pos_add_total += pos_add - pos_add_last;
-					if (iter_depth == 0) {
-						pos_add = pos_add_total;
-					}
 				}
 				break;
 
@@ -2173,7 +2170,7 @@ static reg_errcode_t tre_expand_ast(tre_mem_t mem, tre_stack_t *stack, tre_ast_n
 		}
 	}
 
-	*position += pos_add_total;
+	*position += pos_add;
 
 	/* `max_pos' should never be larger than `*position' if the above
 	   code works, but just an extra safeguard let's make sure
-- 
2.43.0


From ebf10eb04877b59754e885cd3d1e7f2ee147f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 128/277] fix: hexadecimal escapes in regular expressions
 ignored the case insensitive flag

---
 text/re/mtre/regcomp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/text/re/mtre/regcomp.c b/text/re/mtre/regcomp.c
index 3cf813c..338e642 100644
--- a/text/re/mtre/regcomp.c
+++ b/text/re/mtre/regcomp.c
@@ -985,9 +985,9 @@ static reg_errcode_t parse_atom(tre_parse_ctx_t *ctx, const char *s)
 							}
 							s++;
 						}
-						node = tre_ast_new_literal(ctx->mem, v, v, ctx->position);
-						ctx->position++;
-						s--;
+						cp   = (M_uint32)v;
+						next = s;
+						goto parse_cp;
 					}
 					break;
 				case '{':
@@ -1042,6 +1042,7 @@ parse_literal:
 				return REG_BADPAT;
 			}
 
+parse_cp:
 			if (ctx->cflags & REG_ICASE && (M_utf8_isupper_cp(cp) || M_utf8_islower_cp(cp))) {
 				tre_ast_node_t *tmp1, *tmp2;
 				/* multiple opposite case characters are not supported */
-- 
2.43.0


From 4edb2a292c1a77b4229f0a40ea50cd1ead92658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 129/277] fix: the vertical tab escape was missing in regular
 expressions

---
 text/re/mtre/regcomp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text/re/mtre/regcomp.c b/text/re/mtre/regcomp.c
index 338e642..ee1f371 100644
--- a/text/re/mtre/regcomp.c
+++ b/text/re/mtre/regcomp.c
@@ -445,7 +445,7 @@ static const struct {
 	const char *expansion;
 } tre_macros[] = {
 	{'t', "\t"}, {'n', "\n"}, {'r', "\r"},
-	{'f', "\f"}, {'a', "\a"}, {'e', "\033"},
+	{'f', "\f"}, {'v', "\v"}, {'a', "\a"}, {'e', "\033"},
 	{'w', "[[:word:]]"}, {'W', "[^[:word:]]"}, {'s', "[[:space:]]"},
 	{'S', "[^[:space:]]"}, {'d', "[[:digit:]]"}, {'D', "[^[:digit:]]"},
 	{ 0, 0 }
-- 
2.43.0


From a6ebf23a761199c05d8b021b657facf5649c5575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 130/277] fix: negated brackets in multi line regular
 expressions never matched a new line

---
 text/re/mtre/regcomp.c | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/text/re/mtre/regcomp.c b/text/re/mtre/regcomp.c
index ee1f371..230e877 100644
--- a/text/re/mtre/regcomp.c
+++ b/text/re/mtre/regcomp.c
@@ -776,17 +776,6 @@ static reg_errcode_t parse_bracket(tre_parse_ctx_t *ctx, const char *s)
 		goto parse_bracket_done;
 
 	if (negate) {
-		if (ctx->cflags & REG_MULTILINE) {
-			lit = tre_new_lit(&ls);
-			if (lit == NULL) {
-				err = REG_ESPACE;
-				goto parse_bracket_done;
-			}
-			lit->code_min = '\n';
-			lit->code_max = '\n';
-			lit->position = -1;
-		}
-
 		/* Sort the array if we need to negate it. */
 		M_sort_qsort(ls.a, ls.len, sizeof *ls.a, tre_compare_lit, NULL);
 
-- 
2.43.0


From bb8be3fe46065cfd7722d3983d67b8e4bb8108ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 131/277] fix: regular expression alternatives that are always
 empty were hidden by one that is empty under an assertion

---
 text/re/mtre/regcomp.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/text/re/mtre/regcomp.c b/text/re/mtre/regcomp.c
index 230e877..8b88d46 100644
--- a/text/re/mtre/regcomp.c
+++ b/text/re/mtre/regcomp.c
@@ -134,6 +134,7 @@ typedef struct {
 	tre_ast_type_t      type;   /* Type of the node. */
 	void               *obj;             /* Pointer to actual node. */
 	int                 nullable;
+	int                 empty_always; /* Nullable no matter what assertions hold. */
 	int                 submatch_id;
 	int                 num_submatches;
 	int                 num_tags;
@@ -2359,7 +2360,7 @@ static reg_errcode_t tre_match_empty(tre_stack_t *stack, tre_ast_node_t *node, i
 				   starting later, so we prefer the left subexpression over the
 				   right subexpression. */
 				uni = (tre_union_t *)node->obj;
-				if (uni->left->nullable) {
+				if (uni->left->nullable && (uni->left->empty_always || !uni->right->empty_always)) {
 					STACK_PUSHX(stack, voidptr, uni->left)
 				} else if (uni->right->nullable) {
 					STACK_PUSHX(stack, voidptr, uni->right)
@@ -2377,7 +2378,7 @@ static reg_errcode_t tre_match_empty(tre_stack_t *stack, tre_ast_node_t *node, i
 				/* A match with an empty string is preferred over no match at
 				   all, so we go through the argument if possible. */
 				iter = (tre_iteration_t *)node->obj;
-				if (iter->arg->nullable) {
+				if (iter->arg->nullable && (iter->min > 0 || iter->arg->empty_always)) {
 					STACK_PUSHX(stack, voidptr, iter->arg);
 				}
 				break;
@@ -2423,7 +2424,8 @@ static reg_errcode_t tre_compute_nfl(tre_mem_t mem, tre_stack_t *stack, tre_ast_
 							if (lit->code_min < 0) {
 								/* Tags, empty strings, params, and zero width assertions:
 								   nullable = true, firstpos = {}, and lastpos = {}. */
-								node->nullable = 1;
+								node->nullable     = 1;
+								node->empty_always = (lit->code_min != ASSERTION);
 								node->firstpos = tre_set_empty(mem);
 
 								if (!node->firstpos) {
@@ -2437,7 +2439,8 @@ static reg_errcode_t tre_compute_nfl(tre_mem_t mem, tre_stack_t *stack, tre_ast_
 							} else {
 								/* Literal at position i: nullable = false, firstpos = {i},
 								   lastpos = {i}. */
-								node->nullable = 0;
+								node->nullable     = 0;
+								node->empty_always = 0;
 								node->firstpos = tre_set_one(mem, lit->position, lit->code_min, lit->code_max);
 
 								if (!node->firstpos) {
@@ -2489,6 +2492,8 @@ static reg_errcode_t tre_compute_nfl(tre_mem_t mem, tre_stack_t *stack, tre_ast_
 				{
 					tre_union_t *uni = (tre_union_t *)node->obj;
 					node->nullable   = uni->left->nullable || uni->right->nullable;
+
+					node->empty_always = uni->left->empty_always || uni->right->empty_always;
 					node->firstpos   = tre_set_union(mem, uni->left->firstpos, uni->right->firstpos, NULL, 0);
 
 					if (!node->firstpos) {
@@ -2511,6 +2516,8 @@ static reg_errcode_t tre_compute_nfl(tre_mem_t mem, tre_stack_t *stack, tre_ast_
 					} else {
 						node->nullable = 0;
 					}
+					node->empty_always = (iter->min == 0 || iter->arg->empty_always);
+
 					node->firstpos = iter->arg->firstpos;
 					node->lastpos = iter->arg->lastpos;
 				}
@@ -2526,6 +2533,8 @@ static reg_errcode_t tre_compute_nfl(tre_mem_t mem, tre_stack_t *stack, tre_ast_
 
 					node->nullable = cat->left->nullable && cat->right->nullable;
 
+					node->empty_always = cat->left->empty_always && cat->right->empty_always;
+
 					/* Compute firstpos. */
 					if (cat->left->nullable) {
 						/* The left side matches the empty string.  Make a first pass
-- 
2.43.0


From e174ef619657377383ac663efec5dc9d7a084023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 132/277] fix: exact repetitions in ungreedy regular
 expressions cut the match short

---
 text/re/mtre/regcomp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/text/re/mtre/regcomp.c b/text/re/mtre/regcomp.c
index 8b88d46..74791bb 100644
--- a/text/re/mtre/regcomp.c
+++ b/text/re/mtre/regcomp.c
@@ -1197,6 +1197,11 @@ parse_iter:
 				s++;
 			}
 
+			/* There is only one choice. */
+			if (min == max) {
+				minimal = 0;
+			}
+
 			if (max == 0) {
 				ctx->n = tre_ast_new_literal(ctx->mem, EMPTY, -1, -1);
 			} else {
-- 
2.43.0


From 4b7d9b62cadde7b5bf7954a406a6267928df4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:23 +0000
Subject: [PATCH 133/277] fix: the first option of a group of short options was
 delivered a second time

---
 base/data/m_getopt_parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/data/m_getopt_parse.c b/base/data/m_getopt_parse.c
index db2e812..ee0983e 100644
--- a/base/data/m_getopt_parse.c
+++ b/base/data/m_getopt_parse.c
@@ -138,6 +138,8 @@ static M_getopt_error_t M_getopt_parse_option_short(const M_getopt_t *g, const c
 				return ret;
 			}
 		}
+		/* Every option of the group, including the first, has been handled. */
+		return M_GETOPT_ERROR_SUCCESS;
 	}
 
 	opt = M_hash_u64vp_get_direct(g->short_opts, (M_uint64)option[0]);
-- 
2.43.0


From 098c8e2b7b2a76fcf10ffd126bc829506eb68c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:13 +0000
Subject: [PATCH 134/277] fix: cleanups of state machine states that were
 skipped with continue were run

---
 base/data/m_state_machine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index d8c46ac..3edae2c 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -732,8 +732,8 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 			}
 		}
 
-		/* State ran so it should cleanup if necessary. */
-		if (state->type != M_STATE_MACHINE_STATE_TYPE_SUBM && state->type != M_STATE_MACHINE_STATE_TYPE_INTERLEAVED && status != M_STATE_MACHINE_STATUS_WAIT) {
+		/* State ran (it's not waiting and it wasn't skipped) so it should cleanup if necessary. */
+		if (state->type != M_STATE_MACHINE_STATE_TYPE_SUBM && state->type != M_STATE_MACHINE_STATE_TYPE_INTERLEAVED && status != M_STATE_MACHINE_STATUS_WAIT && status != M_STATE_MACHINE_STATUS_CONTINUE) {
 			M_list_u64_insert(current->cleanup_ids, current->current_id);
 		}
 
-- 
2.43.0


From 4a8179b4edf6bbc11a57785f02048b56efa1be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:13 +0000
Subject: [PATCH 135/277] fix: with the one cleanup flag waiting cleanups were
 not finished and failing ones run again

---
 base/data/m_state_machine.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 3edae2c..5cf3502 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -365,8 +365,10 @@ static M_state_machine_status_t M_state_machine_run_cleanup(M_state_machine_t *m
 			case M_STATE_MACHINE_STATUS_PAUSE:
 			case M_STATE_MACHINE_STATUS_WAIT:
 				/* Put the id back so when this is called again this cleanup
-				 * machine will run. */
+				 * machine will run. It hasn't finished so it must not
+				 * count as having been run. */
 				M_list_u64_insert(current->cleanup_ids, id);
+				M_hash_u64vp_remove(current->cleanup_seen_ids, id, M_FALSE);
 				return status;
 			case M_STATE_MACHINE_STATUS_DONE:
 				continue;
@@ -384,11 +386,6 @@ static M_state_machine_status_t M_state_machine_run_cleanup(M_state_machine_t *m
 				status = M_STATE_MACHINE_STATUS_DONE;
 				break;
 		}
-
-		/* If we're only allowing cleanup run once we need to track that this one ran. */
-		if (current->flags & M_STATE_MACHINE_ONE_CLEANUP) {
-			M_hash_u64vp_remove(current->cleanup_seen_ids, id, M_FALSE);
-		}
 	}
 
 	/* All cleanup machines ran so clear the seen states. */
-- 
2.43.0


From 2a6ba584132971dfa458a7003b9edba409b00b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 136/277] fix: resetting a state machine in an interleaved
 state lost the cleanup of its sub state machines

---
 base/data/m_state_machine.c | 47 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 5cf3502..3d2e54c 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -505,8 +505,10 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 								return status;
 							}
 						}
+						ilsub->status = M_STATE_MACHINE_STATUS_NONE;
 					}
 					state->d.interleaved.running = M_FALSE;
+					state->d.interleaved.idx     = 0;
 				}
 			}
 
@@ -1087,10 +1089,8 @@ void M_state_machine_reset(M_state_machine_t *m, M_state_machine_cleanup_reason_
 	if (m == NULL || !m->running)
 		return;
 
-	if (!M_hash_u64vp_get(m->states, m->current_id, &vp))
-		return;
-
-	s = vp;
+	/* There is no current state when cleaning up after a transition to a state that doesn't exist. */
+	s = M_hash_u64vp_get_direct(m->states, m->current_id);
 	if (s != NULL && s->type == M_STATE_MACHINE_STATE_TYPE_SUBM && s->d.sub.subm->running) {
 		M_state_machine_reset(s->d.sub.subm, reason);
 	} else if (s != NULL && s->type == M_STATE_MACHINE_STATE_TYPE_INTERLEAVED) {
@@ -1101,25 +1101,26 @@ void M_state_machine_reset(M_state_machine_t *m, M_state_machine_cleanup_reason_
 			M_state_machine_reset(ilsub->subm, reason);
 			ilsub->status = M_STATE_MACHINE_STATUS_NONE;
 		}
-		s->d.interleaved.running = M_FALSE;
-		s->d.interleaved.idx     = 0;
-		/* Reset any clean up sms associated. */
-		M_state_machine_reset((M_state_machine_t *)s->cleanup, reason);
-	} else {
-		/* We're at the last state to run. When we run
-		 * the cancel it will go into the clean up ids
-		 * and run the cleanup associated with the state.
-		 *
-		 * If that state has a cleanup sm we need to cancel
-		 * it. This will go down the cleanup machine canceling
-		 * it's flow. */
-		if (M_list_u64_len(m->cleanup_ids) > 0 &&
-				M_hash_u64vp_get(m->states, M_list_u64_last(m->cleanup_ids), &vp))
-		{
-			s = vp;
-			if (s != NULL && s->cleanup != NULL) {
-				M_state_machine_reset((M_state_machine_t *)s->cleanup, reason);
-			}
+		/* When cleaning up the sub machines still need to be run once more
+		 * for their own cleanup. */
+		if (reason == M_STATE_MACHINE_CLEANUP_REASON_NONE)
+			s->d.interleaved.running = M_FALSE;
+		s->d.interleaved.idx = 0;
+	}
+
+	/* We're at the last state to run. When we run
+	 * the cancel it will go into the clean up ids
+	 * and run the cleanup associated with the state.
+	 *
+	 * If that state has a cleanup sm we need to cancel
+	 * it. This will go down the cleanup machine canceling
+	 * it's flow. */
+	if (M_list_u64_len(m->cleanup_ids) > 0 &&
+			M_hash_u64vp_get(m->states, M_list_u64_last(m->cleanup_ids), &vp))
+	{
+		s = vp;
+		if (s != NULL && s->cleanup != NULL) {
+			M_state_machine_reset((M_state_machine_t *)s->cleanup, reason);
 		}
 	}
 
-- 
2.43.0


From 3f7d9bcf6ae32ef66a3cf7d02dacb94215cd57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 137/277] fix: sub state machines stopped by the error of
 another interleaved one resumed midway when entered again

---
 base/data/m_state_machine.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 3d2e54c..7467698 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -640,6 +640,11 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 						/* We're done if we hit an error. */
 						if (status != M_STATE_MACHINE_STATUS_DONE && status != M_STATE_MACHINE_STATUS_WAIT && status != M_STATE_MACHINE_STATUS_PAUSE) {
 							all_done = M_TRUE;
+							/* The other sub machines stop here. If the state is entered again they start over. */
+							for (i=0; i<len; i++) {
+								ilsub = M_CAST_OFF_CONST(M_state_machine_interleaved_sub_t *, M_list_at(state->d.interleaved.subs, i));
+								M_state_machine_reset(ilsub->subm, M_STATE_MACHINE_CLEANUP_REASON_NONE);
+							}
 							break;
 						}
 					}
-- 
2.43.0


From f307e80171c74c74baa2aed9d7e7fe250ded1910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 138/277] fix: a sub state machine skipped with pause was
 entered again instead of moving to the next state

---
 base/data/m_state_machine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 7467698..f6c0ba6 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -588,7 +588,7 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 			}
 			/* If the post callback returns pause it's not the sub state machine that's returning pause. It's this
 			 * parent state machine because post is called by the parent. */
-			if (!done_called && status == M_STATE_MACHINE_STATUS_PAUSE) {
+			if (run_sub && !done_called && status == M_STATE_MACHINE_STATUS_PAUSE) {
 				sub_pause = M_TRUE;
 			}
 		} else if (state->type == M_STATE_MACHINE_STATE_TYPE_INTERLEAVED) {
-- 
2.43.0


From ddb74c3a32fb06eaafbb1718be205be268202390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:32 +0000
Subject: [PATCH 139/277] fix: interleaved states without sub state machines
 crashed when traced and reported the wrong status

---
 base/data/m_state_machine.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index f6c0ba6..3f1732a 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -617,7 +617,7 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 				state->d.interleaved.running = M_TRUE;
 				/* Go through each of the subs in the list and run them. */
 				len    = M_list_len(state->d.interleaved.subs);
-				status = M_STATE_MACHINE_STATUS_NEXT;
+				status = M_STATE_MACHINE_STATUS_DONE;
 				for (i=0; i<len; i++) {
 					M_state_machine_interleaved_sub_t *ilsub = M_CAST_OFF_CONST(M_state_machine_interleaved_sub_t *, M_list_at(state->d.interleaved.subs, i));
 					/* Don't run anything that's already finished. */
@@ -1216,7 +1216,7 @@ const M_state_machine_t *M_state_machine_active_sub(const M_state_machine_t *m,
 
 	if (s->type == M_STATE_MACHINE_STATE_TYPE_INTERLEAVED) {
 		const M_state_machine_interleaved_sub_t *ilsub = M_list_at(s->d.interleaved.subs, s->d.interleaved.idx);
-		if (ilsub->subm->running) {
+		if (ilsub != NULL && ilsub->subm->running) {
 			if (recurse) {
 				m = M_state_machine_active_sub(ilsub->subm, recurse);
 				if (m != NULL) {
@@ -1293,7 +1293,7 @@ static void M_state_machine_active_state_descr_int(const M_state_machine_t *m, M
 
 	if (s->type == M_STATE_MACHINE_STATE_TYPE_INTERLEAVED && recurse) {
 		const M_state_machine_interleaved_sub_t *ilsub = M_list_at(s->d.interleaved.subs, s->d.interleaved.idx);
-		if (ilsub->subm->running) {
+		if (ilsub != NULL && ilsub->subm->running) {
 			M_state_machine_active_state_descr_int(ilsub->subm, recurse, ndescr, descr);
 			return;
 		}
-- 
2.43.0


From 8a3d68c9369a1662c9e6e995f95767dabb4b9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 140/277] fix: cleanup machines within a cleanup machine were
 not told the reason for the cleanup

---
 base/data/m_state_machine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 3f1732a..2b4eaad 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -562,6 +562,8 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 				}
 
 				/* Run the sub state machine */
+				/* A cleanup machine that's part of another one runs for the same reason. */
+				state->d.sub.subm->pcleanup_reason = current->pcleanup_reason;
 				status = M_state_machine_run_machine(master, state->d.sub.subm, data);
 				/* If we get a wait or a pause we want to forward that up and our next call will be back into the
 				 * sub state machine. Otherwise, if we're not a cleanup call our post function (if one is set). */
-- 
2.43.0


From a8601e74c7105f32542b64b841b5d26f2d863534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 141/277] fix: returning to the previous state when there is
 none was reported as a bad id

---
 base/data/m_state_machine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 2b4eaad..c160633 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -475,7 +475,7 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 
 		/* Get the state for the current id. */
 		vp = NULL;
-		if (!M_hash_u64vp_get(current->states, current->current_id, &vp)) {
+		if (!M_hash_u64vp_get(current->states, current->current_id, &vp) && current->cleanup_reason == M_STATE_MACHINE_CLEANUP_REASON_NONE) {
 			/* No state associated with the id. */
 			current->cleanup_reason = M_STATE_MACHINE_CLEANUP_REASON_ERROR;
 			current->return_status  = M_STATE_MACHINE_STATUS_ERROR_BAD_ID;
-- 
2.43.0


From 7cb8aef15bcd563c7e386c2600d4d8fb109f387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:32 +0000
Subject: [PATCH 142/277] fix: the running flag of interleaved states was not
 initialized

---
 base/data/m_state_machine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index c160633..132f67b 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -190,6 +190,7 @@ static M_state_machine_state_t *M_state_machine_state_create_interleaved(M_uint6
 	s->d.interleaved.pre  = pre;
 	s->d.interleaved.post = post;
 	s->d.interleaved.idx  = 0;
+	s->d.interleaved.running = M_FALSE;
 
 	return s;
 }
-- 
2.43.0


From 2020b3f619d90bd1e6bb13830ea604c4ba738ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:05 +0000
Subject: [PATCH 143/277] fix: encoding invalid UTF-8 to a single byte charset
 dereferenced NULL

---
 text/textcodec/m_textcodec_cp_map.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/text/textcodec/m_textcodec_cp_map.c b/text/textcodec/m_textcodec_cp_map.c
index 362afd0..7b219f9 100644
--- a/text/textcodec/m_textcodec_cp_map.c
+++ b/text/textcodec/m_textcodec_cp_map.c
@@ -57,15 +57,16 @@ M_textcodec_error_t M_textcodec_encode_cp_map(M_textcodec_buffer_t *buf, const c
 		M_uint32       ucode;
 		unsigned char  cp;
 		M_utf8_error_t ures;
+		const char    *chr = next;
 
 		/* read the next utf8 character. */
-		ures = M_utf8_get_cp(next, &ucode, &next);
+		ures = M_utf8_get_cp(chr, &ucode, &next);
 
 		/* If we have an invalid we need to skip it. Since utf8 characters
  		 * can have multiple bytes we want to and replacement per cha cater
 		 * not per byte. */
 		if (ures != M_UTF8_ERROR_SUCCESS) {
-			next = M_utf8_next_chr(next);
+			next = M_utf8_next_chr(chr);
 		}
 
 		if (ures == M_UTF8_ERROR_SUCCESS && M_hash_u64u64_get(map, ucode, &u64v)) {
-- 
2.43.0


From b35e35a0ea98d7f8e2c046b3fda4c2717d94317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:05 +0000
Subject: [PATCH 144/277] fix: the documented alias iso8859_16 was not
 recognized

---
 text/textcodec/m_textcodec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text/textcodec/m_textcodec.c b/text/textcodec/m_textcodec.c
index fa2c570..6535484 100644
--- a/text/textcodec/m_textcodec.c
+++ b/text/textcodec/m_textcodec.c
@@ -622,7 +622,7 @@ M_textcodec_codec_t M_textcodec_codec_from_str(const char *s)
 			M_str_caseeq(s, "l10")          || 
 			M_str_caseeq(s, "iso-8859-16") || 
 			M_str_caseeq(s, "iso8859-16")  || 
-			M_str_caseeq(s, "iso8859_17")  || 
+			M_str_caseeq(s, "iso8859_16")  || 
 			M_str_caseeq(s, "iso885916")   || 
 			M_str_caseeq(s, "885916"))
 	{
-- 
2.43.0


From 2d0f2331e2df64571ba6f3645d6dbc98e389d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:05 +0000
Subject: [PATCH 145/277] fix: percent encoding for URLs left the reserved
 character + unencoded

---
 text/textcodec/m_textcodec_percent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text/textcodec/m_textcodec_percent.c b/text/textcodec/m_textcodec_percent.c
index 7a13067..45d123b 100644
--- a/text/textcodec/m_textcodec_percent.c
+++ b/text/textcodec/m_textcodec_percent.c
@@ -27,7 +27,7 @@
 
 static M_bool is_percent_reserved(char c)
 {
-	const unsigned char reserved[] = { '!', '*', '\'', '(', ')', ';', ':', '@', '&', '=', '$', ',', '/', '?', '#', '[', ']' };
+	const unsigned char reserved[] = { '!', '*', '\'', '(', ')', ';', ':', '@', '&', '=', '+', '$', ',', '/', '?', '#', '[', ']' };
 	size_t i;
 
 	for (i=0; i<(sizeof(reserved)/sizeof(*reserved)); i++) {
-- 
2.43.0


From eb059fad6b4ae1dff15b095ab8916774a5d3ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:05 +0000
Subject: [PATCH 146/277] fix: quoted printable encoding read out of bounds for
 non ASCII characters

---
 text/textcodec/m_textcodec_quoted_printable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/text/textcodec/m_textcodec_quoted_printable.c b/text/textcodec/m_textcodec_quoted_printable.c
index c4b0938..58c4953 100644
--- a/text/textcodec/m_textcodec_quoted_printable.c
+++ b/text/textcodec/m_textcodec_quoted_printable.c
@@ -35,7 +35,7 @@ M_textcodec_error_t M_textcodec_encode_quoted_printable(M_textcodec_buffer_t *bu
 
 	len = M_str_len(in);
 	for (i=0; i<len; i++) {
-		char c = in[i];
+		unsigned char c = (unsigned char)in[i];
 
 		/* Tab, \r, \n, and space are allowed to be left alone.
  		 * RFC says safe characters are 33-60 and 62-126 inclusive but
@@ -46,7 +46,7 @@ M_textcodec_error_t M_textcodec_encode_quoted_printable(M_textcodec_buffer_t *bu
 			M_textcodec_buffer_add_byte(buf, (unsigned char)("0123456789ABCDEF"[c & 0x0F]));
 			cnt += 3;
 		} else {
-			M_textcodec_buffer_add_byte(buf, (unsigned char)c);
+			M_textcodec_buffer_add_byte(buf, c);
 			cnt++;
 		}
 
-- 
2.43.0


From f8514e48daa6018be9d945079a3fbf68fce6e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 147/277] fix: quoted printable encoding left white space at
 the end of lines where it is lost in transport

---
 text/textcodec/m_textcodec_quoted_printable.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/text/textcodec/m_textcodec_quoted_printable.c b/text/textcodec/m_textcodec_quoted_printable.c
index 58c4953..a80f3a2 100644
--- a/text/textcodec/m_textcodec_quoted_printable.c
+++ b/text/textcodec/m_textcodec_quoted_printable.c
@@ -35,12 +35,17 @@ M_textcodec_error_t M_textcodec_encode_quoted_printable(M_textcodec_buffer_t *bu
 
 	len = M_str_len(in);
 	for (i=0; i<len; i++) {
-		unsigned char c = (unsigned char)in[i];
+		unsigned char c    = (unsigned char)in[i];
+		char          next = in[i+1];
+		M_bool        eol  = (next == '\0' || next == '\r' || next == '\n')?M_TRUE:M_FALSE;
 
 		/* Tab, \r, \n, and space are allowed to be left alone.
  		 * RFC says safe characters are 33-60 and 62-126 inclusive but
-		 * we want a few more in this list. */
-		if (c != '\t' && c != '\r' && c != '\n' && (c < 32 || c == '=' || c > 126)) {
+		 * we want a few more in this list. White space cannot be
+		 * left alone at the end of a line. */
+		if ((c != '\t' && c != '\r' && c != '\n' && (c < 32 || c == '=' || c > 126)) ||
+			((c == ' ' || c == '\t') && eol))
+		{
 			M_textcodec_buffer_add_byte(buf, '=');
 			M_textcodec_buffer_add_byte(buf, (unsigned char)("0123456789ABCDEF"[c >> 4]));
 			M_textcodec_buffer_add_byte(buf, (unsigned char)("0123456789ABCDEF"[c & 0x0F]));
-- 
2.43.0


From c3d02fcd1e86fd88f70886ad26b725882bcdbcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 148/277] fix: quoted printable decoding accepted escapes that
 are not two hex digits

---
 text/textcodec/m_textcodec_quoted_printable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/text/textcodec/m_textcodec_quoted_printable.c b/text/textcodec/m_textcodec_quoted_printable.c
index a80f3a2..9f9d2c2 100644
--- a/text/textcodec/m_textcodec_quoted_printable.c
+++ b/text/textcodec/m_textcodec_quoted_printable.c
@@ -121,7 +121,9 @@ M_textcodec_error_t M_textcodec_decode_quoted_printable(M_textcodec_buffer_t *bu
 			/* =\r\n is a soft line break. Kill it because we'll put the line back together
 			 * on the next pass. */
 			M_parser_consume(parser, 2);
-		} else if (M_parser_read_int(parser, M_PARSER_INTEGER_ASCII, 2, 16, &i64v)) {
+		} else if (M_chr_ishex((char)M_parser_peek(parser)[0]) && M_chr_ishex((char)M_parser_peek(parser)[1]) &&
+			M_parser_read_int(parser, M_PARSER_INTEGER_ASCII, 2, 16, &i64v))
+		{
 			/* Two character hex code converted into a character.
 			 *
 			 * The RFC says the characters must be upper case but
-- 
2.43.0


From d308e59861462d76f53ee60b931417097f33993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 149/277] fix: punycode decoding wrapped around instead of
 failing for code points out of range

---
 text/textcodec/m_textcodec_punycode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/text/textcodec/m_textcodec_punycode.c b/text/textcodec/m_textcodec_punycode.c
index dce5a3c..064fe6e 100644
--- a/text/textcodec/m_textcodec_punycode.c
+++ b/text/textcodec/m_textcodec_punycode.c
@@ -274,6 +274,8 @@ M_textcodec_error_t M_textcodec_decode_punycode(M_textcodec_buffer_t *buf, const
 		/* Update our counters. */
 		len2  = M_list_str_len(l) + 1;
 		bias  = adapt((M_uint32)(i - oldi), (M_uint32)len2, oldi==0?M_TRUE:M_FALSE);
+		if (i / len2 > M_UINT32_MAX - n)
+			goto fail;
 		n    += (M_uint32)(i / len2);
 		i    %= (M_uint32)len2;
 
-- 
2.43.0


From ae56ea7afbf2f0446231c1ace0b27bc54e1c7ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:13 +0000
Subject: [PATCH 150/277] fix: CSV cells of nothing but quotes were read with
 the wrong number of quotes

---
 formats/csv/m_csv.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/formats/csv/m_csv.c b/formats/csv/m_csv.c
index 844640a..3c703f6 100644
--- a/formats/csv/m_csv.c
+++ b/formats/csv/m_csv.c
@@ -88,7 +88,8 @@ static void M_csv_remove_quotes(char *str, char quote)
 
 	len = M_str_len(str);
 
-	for (i=0; i<len; i++) {
+	/* The opening quote is never part of a quoted quote. */
+	for (i=(str[0] == quote)?1:0; i<len; i++) {
 		if (str[i] == quote) {
 			if (str[i+1] == quote) {
 				str[cnt++] = quote;
@@ -99,12 +100,6 @@ static void M_csv_remove_quotes(char *str, char quote)
 		}
 	}
 	str[cnt] = 0;
-
-	/* If this was an empty string, "", it may leave
-	 * a single quote behind because it looks like a
-	 * quoted quote.  Lets detect that and remove it */
-	if (cnt == 1 && str[cnt-1] == quote)
-		str[cnt-1] = 0;
 }
 
 
-- 
2.43.0


From d2c0bc6029dcd6db53d674ad26496c6d494075cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:21 +0000
Subject: [PATCH 151/277] fix: URLs with a fragment and neither path nor query
 were rejected

---
 formats/url/url_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/formats/url/url_parser.c b/formats/url/url_parser.c
index 2c69c7b..90304a1 100644
--- a/formats/url/url_parser.c
+++ b/formats/url/url_parser.c
@@ -281,6 +281,10 @@ parse_url_char(enum state s, const char ch)
         return s_req_query_string_start;
       }
 
+      if (ch == '#') {
+        return s_req_fragment_start;
+      }
+
       if (ch == '@') {
         return s_req_server_with_at;
       }
-- 
2.43.0


From 70aa8c3fbb35be8b9f050f540dfdadfdb270cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 152/277] fix: components of URLs longer than 64 KiB were taken
 from the wrong place

---
 formats/url/m_url.c      |  4 ++--
 formats/url/url_parser.c | 14 +++++++-------
 formats/url/url_parser.h |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/formats/url/m_url.c b/formats/url/m_url.c
index d25df11..aca79ed 100644
--- a/formats/url/m_url.c
+++ b/formats/url/m_url.c
@@ -40,9 +40,9 @@ static void M_url_set_field(const char *url_str, struct http_parser_url *url, ch
 {
 	if ((url->field_set & (1 << idx)) != 0) {
 		const size_t  off = url->field_data[idx].off;
-		const int     len = url->field_data[idx].len;
+		const size_t  len = url->field_data[idx].len;
 		const char   *s   = &url_str[off];
-		M_asprintf(field, "%.*s", len, s);
+		*field = M_strdup_max(s, len);
 	}
 }
 
diff --git a/formats/url/url_parser.c b/formats/url/url_parser.c
index 90304a1..0d338a0 100644
--- a/formats/url/url_parser.c
+++ b/formats/url/url_parser.c
@@ -468,14 +468,14 @@ http_parse_host(const char * buf, struct http_parser_url *u, int found_at) {
     switch(new_s) {
       case s_http_host:
         if (s != s_http_host) {
-          u->field_data[UF_HOST].off = (uint16_t)(p - buf);
+          u->field_data[UF_HOST].off = (size_t)(p - buf);
         }
         u->field_data[UF_HOST].len++;
         break;
 
       case s_http_host_v6:
         if (s != s_http_host_v6) {
-          u->field_data[UF_HOST].off = (uint16_t)(p - buf);
+          u->field_data[UF_HOST].off = (size_t)(p - buf);
         }
         u->field_data[UF_HOST].len++;
         break;
@@ -487,7 +487,7 @@ http_parse_host(const char * buf, struct http_parser_url *u, int found_at) {
 
       case s_http_host_port:
         if (s != s_http_host_port) {
-          u->field_data[UF_PORT].off = (uint16_t)(p - buf);
+          u->field_data[UF_PORT].off = (size_t)(p - buf);
           u->field_data[UF_PORT].len = 0;
           u->field_set |= (1 << UF_PORT);
         }
@@ -496,7 +496,7 @@ http_parse_host(const char * buf, struct http_parser_url *u, int found_at) {
 
       case s_http_userinfo:
         if (s != s_http_userinfo) {
-          u->field_data[UF_USERINFO].off = (uint16_t)(p - buf);
+          u->field_data[UF_USERINFO].off = (size_t)(p - buf);
           u->field_data[UF_USERINFO].len = 0;
           u->field_set |= (1 << UF_USERINFO);
         }
@@ -600,7 +600,7 @@ http_parser_parse_url(const char *buf, size_t buflen, int is_connect,
       continue;
     }
 
-    u->field_data[uf].off = (uint16_t)(p - buf);
+    u->field_data[uf].off = (size_t)(p - buf);
     u->field_data[uf].len = 1;
 
     u->field_set |= (1 << uf);
@@ -626,8 +626,8 @@ http_parser_parse_url(const char *buf, size_t buflen, int is_connect,
   }
 
   if (u->field_set & (1 << UF_PORT)) {
-    uint16_t off;
-    uint16_t len;
+    size_t off;
+    size_t len;
     const char* end;
     signed long v;
 
diff --git a/formats/url/url_parser.h b/formats/url/url_parser.h
index 78b3096..95af53a 100644
--- a/formats/url/url_parser.h
+++ b/formats/url/url_parser.h
@@ -76,8 +76,8 @@ struct http_parser_url {
   uint16_t port;                /* Converted UF_PORT string */
 
   struct {
-    uint16_t off;               /* Offset into buffer in which field starts */
-    uint16_t len;               /* Length of run in buffer */
+    size_t off;                 /* Offset into buffer in which field starts */
+    size_t len;                 /* Length of run in buffer */
   } field_data[UF_MAX];
 };
 
-- 
2.43.0


From 254bb8cb65c2bb37c19ad75589e7be6eddeab983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 153/277] fix: XML CDATA sections were entity decoded or,
 undecoded, ran to the end of the document

---
 formats/xml/m_xml_reader.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/formats/xml/m_xml_reader.c b/formats/xml/m_xml_reader.c
index 12fd6ee..11acd63 100644
--- a/formats/xml/m_xml_reader.c
+++ b/formats/xml/m_xml_reader.c
@@ -568,11 +568,13 @@ static M_bool M_xml_read_tag_process(M_xml_node_t **node, const char *data, size
 			break;
 
 		case M_XML_TAG_CDATA:
-			/* Standard text data would be encoded, so we need to treat this as encoded */
-			if (!(flags & M_XML_READER_DONT_DECODE_TEXT)) {
-				text = M_xml_entities_decode(data, data_len);
+			/* CDATA is literal. Standard text data would be encoded, so it has to be encoded when text isn't decoded. */
+			if (flags & M_XML_READER_DONT_DECODE_TEXT) {
+				text = M_xml_entities_encode(data, data_len);
+			} else {
+				text = M_strdup_max(data, data_len);
 			}
-			new_node = M_xml_create_text(text!=NULL?text:data, 0, *node);
+			new_node = M_xml_create_text(text, 0, *node);
 			M_free(text);
 			if (new_node == NULL) {
 				*error = M_XML_ERROR_GENERIC;
-- 
2.43.0


From b5a6ea7446aa6222bae2a77d4d466289bc136e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 154/277] fix: XML declarations took the rest of the document
 as their data

---
 formats/xml/m_xml_reader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/formats/xml/m_xml_reader.c b/formats/xml/m_xml_reader.c
index 11acd63..4671045 100644
--- a/formats/xml/m_xml_reader.c
+++ b/formats/xml/m_xml_reader.c
@@ -530,11 +530,14 @@ static M_bool M_xml_read_tag_process(M_xml_node_t **node, const char *data, size
 			}
 
 			if (info->type == M_XML_TAG_DECLARATION) {
-				if (!M_xml_node_set_tag_data(new_node, data)) {
+				text = M_strdup_trim_max(data, data_len);
+				if (!M_xml_node_set_tag_data(new_node, text)) {
 					*error = M_XML_ERROR_GENERIC;
+					M_free(text);
 					M_xml_node_destroy(new_node);
 					return M_FALSE;
 				}
+				M_free(text);
 			} else {
 				if (!M_xml_read_tag_attributes(new_node, data, data_len, flags, error)) {
 					M_xml_node_destroy(new_node);
-- 
2.43.0


From 48998a0ee30d5f2185259fbd178561c7622d3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 155/277] fix: &gt;, &apos;, &#xA; and &#xD; were not decoded
 in XML attribute values

---
 formats/xml/m_xml_entities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/xml/m_xml_entities.c b/formats/xml/m_xml_entities.c
index 3750bd9..84c2e85 100644
--- a/formats/xml/m_xml_entities.c
+++ b/formats/xml/m_xml_entities.c
@@ -159,5 +159,5 @@ char *M_xml_attribute_encode(const char *str, size_t len)
 
 char *M_xml_attribute_decode(const char *str, size_t len)
 {
-	return M_xml_entities_decode_int(str, len, M_xml_attribute_entities);
+	return M_xml_entities_decode_int(str, len, M_xml_decode_entities);
 }
-- 
2.43.0


From dcd882eda69ab1a22ff439937a3423ef2de1c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 156/277] fix: XML attributes without a value were rejected as
 duplicates when attributes are not decoded

---
 formats/xml/m_xml_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/xml/m_xml_reader.c b/formats/xml/m_xml_reader.c
index 4671045..af5a73b 100644
--- a/formats/xml/m_xml_reader.c
+++ b/formats/xml/m_xml_reader.c
@@ -470,7 +470,7 @@ static M_bool M_xml_read_tag_attributes(M_xml_node_t *node, const char *data, si
 			if (keytemp != NULL)
 				key = keytemp;
 
-			val         = NULL;
+			val         = "";
 			decoded_val = NULL;
 			if (num_keyval > 1)
 				val = keyval[1];
-- 
2.43.0


From caee7231980dba8c857bdd2ebd3e41b7a14f439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 157/277] fix: XML read errors never reported the line

---
 formats/xml/m_xml_reader.c | 40 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/formats/xml/m_xml_reader.c b/formats/xml/m_xml_reader.c
index af5a73b..9750fd7 100644
--- a/formats/xml/m_xml_reader.c
+++ b/formats/xml/m_xml_reader.c
@@ -711,12 +711,23 @@ static M_bool M_xml_doc_has_element(M_xml_node_t *doc)
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
+/* Errors are reported as line and column when the caller wants the line, otherwise as offset. */
+static void M_xml_read_format_error_pos(const char *data, size_t data_len, size_t *error_line, size_t *error_pos)
+{
+	M_parser_t *parser;
+
+	parser = M_parser_create_const((const unsigned char *)data, data_len, M_PARSER_FLAG_TRACKLINES);
+	M_parser_consume(parser, *error_pos);
+	*error_line = M_parser_current_line(parser);
+	*error_pos  = M_parser_current_column(parser);
+	M_parser_destroy(parser);
+}
+
 M_xml_node_t *M_xml_read(const char *data, size_t data_len, M_uint32 flags, size_t *processed_len, M_xml_error_t *error, size_t *error_line, size_t *error_pos)
 {
 	M_xml_node_t  *doc;
 	M_xml_node_t  *curr_level;
 	M_xml_error_t  myerror;
-	size_t         myerror_line;
 	size_t         myerror_pos;
 	size_t         i;
 	size_t         retval;
@@ -724,9 +735,8 @@ M_xml_node_t *M_xml_read(const char *data, size_t data_len, M_uint32 flags, size
 	if (error == NULL)
 		error = &myerror;
 	*error = M_XML_ERROR_SUCCESS;
-	if (error_line == NULL)
-		error_line = &myerror_line;
-	*error_line = 0;
+	if (error_line != NULL)
+		*error_line = 0;
 	if (error_pos == NULL)
 		error_pos = &myerror_pos;
 	*error_pos = 0;
@@ -757,8 +767,7 @@ M_xml_node_t *M_xml_read(const char *data, size_t data_len, M_uint32 flags, size
 				/* Multiple roots are invalid... */
 				*error = M_XML_ERROR_EXPECTED_END;
 				*error_pos = i;
-				M_xml_node_destroy(doc);
-				return NULL;
+				goto fail;
 			}
 		}
 
@@ -767,16 +776,15 @@ M_xml_node_t *M_xml_read(const char *data, size_t data_len, M_uint32 flags, size
 			retval = M_xml_read_tag(&curr_level, data+i, data_len-i, flags, error);
 			if (retval == 0) {
 				*error_pos = i;
-				M_xml_node_destroy(doc);
-				return NULL;
+				goto fail;
 			}
 			i += (retval - 1);
 		} else {
 			/* Parse text up to next '<' */
 			retval = M_xml_read_text(curr_level, data+i, data_len-i, flags, error);
 			if (retval == 0) {
-				M_xml_node_destroy(doc);
-				return NULL;
+				*error_pos = i;
+				goto fail;
 			}
 			i += (retval - 1);
 		}
@@ -785,21 +793,25 @@ M_xml_node_t *M_xml_read(const char *data, size_t data_len, M_uint32 flags, size
 	if (curr_level != doc) {
 		*error     = M_XML_ERROR_MISSING_CLOSE_TAG;
 		*error_pos = i;
-		M_xml_node_destroy(doc);
-		return NULL;
+		goto fail;
 	}
 
 	if (!M_xml_doc_has_element(doc)) {
 		*error     = M_XML_ERROR_NO_ELEMENTS;
 		*error_pos = i;
-		M_xml_node_destroy(doc);
-		return NULL;
+		goto fail;
 	}
 
 	if (processed_len != NULL)
 		*processed_len = i;
 
 	return doc;
+
+fail:
+	if (error_line != NULL)
+		M_xml_read_format_error_pos(data, data_len, error_line, error_pos);
+	M_xml_node_destroy(doc);
+	return NULL;
 }
 
 M_xml_node_t *M_xml_read_file(const char *path, M_uint32 flags, size_t max_read, M_xml_error_t *error, size_t *error_line, size_t *error_pos)
-- 
2.43.0


From 08bab0659014d0f9396b439ca41805f98c63720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 158/277] fix: data of XML processing instructions was leaked

---
 formats/xml/m_xml.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/xml/m_xml.c b/formats/xml/m_xml.c
index 0a8baf6..3cdd112 100644
--- a/formats/xml/m_xml.c
+++ b/formats/xml/m_xml.c
@@ -163,6 +163,7 @@ static void M_xml_node_destroy_int(M_xml_node_t *node)
 			break;
 		case M_XML_NODE_TYPE_PROCESSING_INSTRUCTION:
 			M_free(node->d.processing_instruction.name);
+			M_free(node->d.processing_instruction.tag_data);
 			M_hash_dict_destroy(node->d.processing_instruction.attributes);
 			break;
 		case M_XML_NODE_TYPE_DECLARATION:
-- 
2.43.0


From 5b687186e16908bbdbc88293ccf4d6dac6c3db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 159/277] fix: '=' was dropped from the values XPath attribute
 predicates look for

---
 formats/xml/m_xml_xpath.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/formats/xml/m_xml_xpath.c b/formats/xml/m_xml_xpath.c
index b88e6c9..e45a267 100644
--- a/formats/xml/m_xml_xpath.c
+++ b/formats/xml/m_xml_xpath.c
@@ -348,9 +348,8 @@ static void M_xml_xpath_search_match_node_attr_val(const char *seg, M_xml_node_t
 	/* Get the attribute value by putting the parts after the separtor '=' together. */
 	buf = M_buf_create();
 	for (i=1; i<num_parts; i++) {
-		if (parts[i] == NULL || *(parts[i]) == '\0') {
-			continue;
-		}
+		if (i > 1)
+			M_buf_add_byte(buf, '=');
 		M_buf_add_str(buf, parts[i]);
 	}
 	M_str_explode_free(parts, num_parts);
-- 
2.43.0


From 0bbcb6f23981e7f16159d1a1e5b55be1cc24eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 160/277] fix: text nodes were counted as elements in XPath
 positions

---
 formats/xml/m_xml_xpath.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/formats/xml/m_xml_xpath.c b/formats/xml/m_xml_xpath.c
index e45a267..4426563 100644
--- a/formats/xml/m_xml_xpath.c
+++ b/formats/xml/m_xml_xpath.c
@@ -452,9 +452,9 @@ static void M_xml_xpath_search_match_node_pos(const char *seg, M_xml_node_t *nod
 		if (node_type != M_XML_NODE_TYPE_ELEMENT && node_type != M_XML_NODE_TYPE_TEXT)
 			continue;
 
-		/* If it's an element and it matches or it's a text node it is considered a possible node. */
-		if ((node_type == M_XML_NODE_TYPE_ELEMENT && M_xml_xpath_search_tag_eq(ptr, last_seg, flags)) ||
-				(node_type == M_XML_NODE_TYPE_TEXT))
+		/* Only nodes of the kind being matched count. */
+		if ((match_type == M_XML_XPATH_MATCH_TYPE_TAG && node_type == M_XML_NODE_TYPE_ELEMENT && M_xml_xpath_search_tag_eq(ptr, last_seg, flags)) ||
+			(match_type == M_XML_XPATH_MATCH_TYPE_TEXT && node_type == M_XML_NODE_TYPE_TEXT))
 		{
 			/* Increment the index. */
 			nidx++;
-- 
2.43.0


From c38732426d150a365695554f490daaaa31341135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:51 +0000
Subject: [PATCH 161/277] fix: '.' in an XPath selected all descendants

---
 formats/xml/m_xml_xpath.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/formats/xml/m_xml_xpath.c b/formats/xml/m_xml_xpath.c
index 4426563..13f2c86 100644
--- a/formats/xml/m_xml_xpath.c
+++ b/formats/xml/m_xml_xpath.c
@@ -527,7 +527,7 @@ static void M_xml_xpath_search(M_xml_node_t *node, M_list_str_t *segments, size_
 
 	seg = M_list_str_at(segments, seg_offset);
 	/* A blank segment denotes we want to search recursively for the next pattern */
-	if (seg == NULL || *seg == '\0' || M_str_eq(seg, ".")) {
+	if (seg == NULL || *seg == '\0') {
 		/* Only recurse if there is something else to match */
 		if (num_segments > 1) {
 			M_xml_xpath_search(node, segments, seg_offset+1, flags, M_TRUE, matches, num_matches);
@@ -535,6 +535,12 @@ static void M_xml_xpath_search(M_xml_node_t *node, M_list_str_t *segments, size_
 		return;
 	}
 
+	/* Are we staying at the current element? */
+	if (M_str_eq(seg, ".")) {
+		M_xml_xpath_search(node, segments, seg_offset+1, flags, search_recursive, matches, num_matches);
+		return;
+	}
+
 	/* Are we moving up to the parent? */
 	if (M_str_eq(seg, "..")) {
 		if (M_xml_node_parent(node) != NULL) {
-- 
2.43.0


From 7a9a205013b60b2df5dbdced7962600eb8371748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 162/277] fix: XPath returned the same node several times with
 .. and //

---
 formats/xml/m_xml_xpath.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/formats/xml/m_xml_xpath.c b/formats/xml/m_xml_xpath.c
index 13f2c86..ba573c9 100644
--- a/formats/xml/m_xml_xpath.c
+++ b/formats/xml/m_xml_xpath.c
@@ -578,6 +578,27 @@ static void M_xml_xpath_search(M_xml_node_t *node, M_list_str_t *segments, size_
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
+/* The same node can be reached more than once with .. and //, it is only one match. */
+static void M_xml_xpath_remove_duplicates(M_xml_node_t **matches, size_t *num_matches)
+{
+	M_hash_u64vp_t *seen;
+	size_t          i;
+	size_t          cnt = 0;
+
+	if (matches == NULL || *num_matches < 2)
+		return;
+
+	seen = M_hash_u64vp_create(*num_matches, 75, M_HASH_U64VP_NONE, NULL);
+	for (i=0; i<*num_matches; i++) {
+		if (M_hash_u64vp_get(seen, (M_uint64)((M_uintptr)matches[i]), NULL))
+			continue;
+		M_hash_u64vp_insert(seen, (M_uint64)((M_uintptr)matches[i]), NULL);
+		matches[cnt++] = matches[i];
+	}
+	*num_matches = cnt;
+	M_hash_u64vp_destroy(seen, M_FALSE);
+}
+
 M_xml_node_t **M_xml_xpath(M_xml_node_t *node, const char *search, M_uint32 flags, size_t *num_matches)
 {
 	M_xml_node_t **matches           = NULL;
@@ -669,6 +690,7 @@ M_xml_node_t **M_xml_xpath(M_xml_node_t *node, const char *search, M_uint32 flag
 	if (M_list_str_len(seg_list) - start_offset != 0) {
 		/* Only do the search if there is something to search */
 		M_xml_xpath_search(node, seg_list, start_offset, flags, M_FALSE, &matches, num_matches);
+		M_xml_xpath_remove_duplicates(matches, num_matches);
 	} else {
 		/* Otherwise I suppose it makes sense to return the current node */
 		matches      = M_malloc(sizeof(*matches));
-- 
2.43.0


From bd6f656c848346b29ddce85b0787d2f6c71c4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 163/277] fix: decoding XML entities read past the given length

---
 formats/xml/m_xml_entities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/xml/m_xml_entities.c b/formats/xml/m_xml_entities.c
index 84c2e85..424bc10 100644
--- a/formats/xml/m_xml_entities.c
+++ b/formats/xml/m_xml_entities.c
@@ -120,7 +120,7 @@ static char *M_xml_entities_decode_int(const char *str, size_t len, M_xml_entity
 	for (i=0; i<len; i++) {
 		if (str[i] == '&') {
 			for (j=0; entities[j].ent != 0; j++) {
-				if (M_str_caseeq_max(str+i, entities[j].encoded, entities[j].encoded_len)) {
+				if (entities[j].encoded_len <= len-i && M_str_caseeq_max(str+i, entities[j].encoded, entities[j].encoded_len)) {
 					break;
 				}
 			}
-- 
2.43.0


From 302907d8047145c0781bd3a82a3ae198435c0244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 164/277] fix: HTTP chunks were read recursively and many small
 ones exhausted the stack

---
 formats/http/m_http_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index fc77de6..a0cca5a 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -812,6 +812,7 @@ static M_http_error_t M_http_read_chunked(M_http_reader_t *httpr, M_parser_t *pa
 	M_http_error_t res       = M_HTTP_ERROR_SUCCESS;
 	M_bool         full_read = M_FALSE;
 
+start:
 	/* Read the start of the chunk. */
 	if (httpr->rstep == M_HTTP_READER_STEP_CHUNK_START) {
 		res = M_http_read_chunk_start(httpr, parser, &full_read);
@@ -847,7 +848,7 @@ static M_http_error_t M_http_read_chunked(M_http_reader_t *httpr, M_parser_t *pa
 			if (res != M_HTTP_ERROR_SUCCESS)
 				goto done;
 
-			return M_http_read_chunked(httpr, parser);
+			goto start;
 		}
 	}
 
-- 
2.43.0


From b20042e63547688aebcf2e10de7687df24e9af54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 165/277] fix: the end of an HTTP chunk was reported with the
 number of the next one

---
 formats/http/m_http_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index a0cca5a..c409a80 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -842,12 +842,13 @@ start:
 		} else {
 			/* If this isn't the last chunk start reading the next one. */
 			httpr->rstep = M_HTTP_READER_STEP_CHUNK_START;
-			httpr->part_idx++;
 
 			res = httpr->cbs.chunk_data_done_func(httpr->part_idx, httpr->thunk);
 			if (res != M_HTTP_ERROR_SUCCESS)
 				goto done;
 
+			httpr->part_idx++;
+
 			goto start;
 		}
 	}
-- 
2.43.0


From 7825cb452214ce51066fc457b80344871aea226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 166/277] fix: garbage after an HTTP chunk length was taken as
 an extension

---
 formats/http/m_http_reader.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index c409a80..71f2012 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -716,6 +716,13 @@ static M_http_error_t M_http_read_chunk_start(M_http_reader_t *httpr, M_parser_t
 	httpr->body_len      = (size_t)i64v; 
 	httpr->body_len_seen = 0;
 
+	/* Nothing but white space may be between the length and the extensions. */
+	M_parser_consume_whitespace(msg, M_PARSER_WHITESPACE_NONE);
+	if (M_parser_len(msg) != 0 && !M_parser_compare_str(msg, ";", 1, M_FALSE)) {
+		res = M_HTTP_ERROR_CHUNK_LENGTH;
+		goto done;
+	}
+
 	/* Any data left is extensions. */
 	if (M_parser_len(msg) == 0) {
 		res        = M_HTTP_ERROR_SUCCESS;
-- 
2.43.0


From 0d4ef1e0e34e0dfb750b23eac9d06873506de9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 167/277] fix: HTTP content lengths with a sign or trailing
 garbage were accepted

---
 formats/http/m_http_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 71f2012..2f0e049 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -249,7 +249,7 @@ static M_http_error_t M_http_read_header_validate_kv(M_http_reader_t *httpr, con
 			httpr->have_body_len = M_FALSE;
 			httpr->body_len      = 0;
 		} else {
-			if (M_str_to_int64_ex(val, M_str_len(val), 10, &i64v, NULL) != M_STR_INT_SUCCESS) {
+			if (!M_str_isnum(val) || M_str_to_int64_ex(val, M_str_len(val), 10, &i64v, NULL) != M_STR_INT_SUCCESS) {
 				return M_HTTP_ERROR_CONTENT_LENGTH_MALFORMED;
 			}
 			if (i64v < 0) {
-- 
2.43.0


From 81063954354306a4b23faab48ce33baeda7e9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 168/277] fix: chunked HTTP multipart messages were not read as
 chunked when the content type came last

---
 formats/http/m_http_reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 2f0e049..6659ca7 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -280,8 +280,8 @@ static M_http_error_t M_http_read_header_validate_kv(M_http_reader_t *httpr, con
 			if (httpr->data_type == M_HTTP_DATA_FORMAT_MULTIPART) {
 				return M_HTTP_ERROR_HEADER_DUPLICATE;
 			}
-			/* Ignore the multipart if we know there is no body data. */
-			if (httpr->data_type != M_HTTP_DATA_FORMAT_NONE) {
+			/* Ignore the multipart if we know there is no body data or it's chunked. */
+			if (httpr->data_type != M_HTTP_DATA_FORMAT_NONE && httpr->data_type != M_HTTP_DATA_FORMAT_CHUNKED) {
 				httpr->data_type = M_HTTP_DATA_FORMAT_MULTIPART;
 			}
 		}
-- 
2.43.0


From dd1216670e17392ef973ee80afe6f0f145d66ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 169/277] fix: errors of the HTTP full header callbacks were
 ignored

---
 formats/http/m_http_reader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 6659ca7..548122d 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -558,7 +558,10 @@ static M_http_error_t M_http_read_header(M_http_reader_t *httpr, M_parser_t *par
 		}
 
 		/* Record we saw this header. */
-		M_http_read_header_full_process(httpr, key, val);
+		res = M_http_read_header_full_process(httpr, key, val);
+		if (res != M_HTTP_ERROR_SUCCESS) {
+			break;
+		}
 
 		/* Empty value means we don't need to process it any further.
  		 * Just inform the header was seen without a value. */
-- 
2.43.0


From cf98d1fd5a9537fd5f380163f3027a3300aa2dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 170/277] fix: HTTP multipart boundaries that are quoted,
 followed by parameters, repeated or missing were mishandled

---
 formats/http/m_http_reader.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 548122d..3f9f343 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -238,7 +238,9 @@ static M_http_error_t M_http_read_version(M_parser_t *parser, M_http_version_t *
 
 static M_http_error_t M_http_read_header_validate_kv(M_http_reader_t *httpr, const char *key, const char *val)
 {
-	M_int64 i64v;
+	const char *end;
+	char       *boundary;
+	M_int64     i64v;
 
 	if (M_str_caseeq(key, "content-length")) {
 		if (httpr->have_body_len) {
@@ -294,13 +296,27 @@ static M_http_error_t M_http_read_header_validate_kv(M_http_reader_t *httpr, con
 			}
 			/* Move past the '='. */
 			val++;
-			if (M_str_isempty(val) || M_str_len(val) > 70) {
+			while (M_chr_isspace(*val))
+				val++;
+			/* The value is either quoted or ends where the next parameter starts. */
+			if (*val == '"') {
+				val++;
+				end = M_str_chr(val, '"');
+			} else {
+				end = M_str_chr(val, ';');
+			}
+			boundary = M_strdup_max(val, end == NULL ? M_str_len(val) : (size_t)(end - val));
+			M_str_trim(boundary);
+			if (M_str_isempty(boundary) || M_str_len(boundary) > 70) {
+				M_free(boundary);
 				return M_HTTP_ERROR_MULTIPART_NOBOUNDARY;
 			}
 			/* Mulipart boundaries are prefixed with -- to signify the start
 			 * of the given boundary. */
-			M_asprintf(&httpr->boundary, "--%s", val);
+			M_free(httpr->boundary);
+			M_asprintf(&httpr->boundary, "--%s", boundary);
 			httpr->boundary_len = M_str_len(httpr->boundary);
+			M_free(boundary);
 		}
 	}
 
@@ -1148,6 +1164,10 @@ static M_http_error_t M_http_reader_calculate_body_len(M_http_reader_t *httpr)
 		return M_HTTP_ERROR_SUCCESS;
 	}
 
+	if (httpr->data_type == M_HTTP_DATA_FORMAT_MULTIPART && httpr->boundary == NULL) {
+		return M_HTTP_ERROR_MULTIPART_NOBOUNDARY;
+	}
+
 	if (
 		httpr->msg_type      == M_HTTP_MESSAGE_TYPE_REQUEST  &&
 		httpr->data_type     == M_HTTP_DATA_FORMAT_MULTIPART &&
-- 
2.43.0


From 14ef2e5934e5b252e6f56f498b2b303808faf632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 171/277] fix: HTTP multipart messages could only be read in
 one piece

---
 formats/http/m_http_reader.c     | 188 ++++++++++++++++---------------
 formats/http/m_http_reader_int.h |   1 +
 2 files changed, 97 insertions(+), 92 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 3f9f343..ce309cb 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -895,116 +895,102 @@ done:
 	return res;
 }
 
+/* Find the boundary that ends the preamble or the data of a part. The line end before it is not part of the data
+ * and only missing when there is no data. Data which may still turn out to be the boundary is not counted. */
+static void M_http_read_multipart_find_boundary(M_http_reader_t *httpr, M_parser_t *parser, size_t *data_len, size_t *delim_len)
+{
+	unsigned char *delim;
+	size_t         len;
+	M_bool         found = M_FALSE;
+
+	*data_len  = 0;
+	*delim_len = 0;
+
+	if (!httpr->have_data) {
+		len = M_MIN(M_parser_len(parser), httpr->boundary_len);
+		if (M_mem_eq(M_parser_peek(parser), httpr->boundary, len)) {
+			if (len == httpr->boundary_len)
+				*delim_len = len;
+			return;
+		}
+		httpr->have_data = M_TRUE;
+	}
+
+	len   = httpr->boundary_len + 2;
+	delim = M_malloc(len);
+	M_mem_copy(delim, "\r\n", 2);
+	M_mem_copy(delim + 2, httpr->boundary, httpr->boundary_len);
+
+	M_parser_mark(parser);
+	*data_len = M_parser_consume_boundary(parser, delim, len, M_FALSE, &found);
+	M_parser_mark_rewind(parser);
+	if (found)
+		*delim_len = len;
+
+	M_free(delim);
+}
+
 static M_http_error_t M_http_read_multipart_preamble(M_http_reader_t *httpr, M_parser_t *parser, M_bool *full_read)
 {
-	M_http_error_t  res = M_HTTP_ERROR_SUCCESS;
-	M_bool          found;
-	size_t          data_len;
-	size_t          consume_len;
+	M_http_error_t res = M_HTTP_ERROR_SUCCESS;
+	size_t         data_len;
+	size_t         delim_len;
 
 	*full_read = M_FALSE;
 	if (M_parser_len(parser) == 0)
 		return M_HTTP_ERROR_SUCCESS;
 
-	/* Pull off all data before the first boundary. */
-	M_parser_mark(parser);
-	data_len    = M_parser_consume_boundary(parser, (const unsigned char *)httpr->boundary, httpr->boundary_len, M_FALSE, &found);
-	consume_len = data_len;
-	if (found && M_parser_len(parser) >= httpr->boundary_len + 2) {
-		/* Eat the boundary. */
-		M_parser_consume(parser, M_str_len(httpr->boundary));
+	M_http_read_multipart_find_boundary(httpr, parser, &data_len, &delim_len);
 
-		if (M_parser_compare_str(parser, "--", 2, M_FALSE)) {
-			/* Check for an ending boundary to check which shouldn't be here. */
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_MISSING_DATA;
-		} else if (M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
-			/* End the line end. */
-			M_parser_consume(parser, 2);
-		} else {
-			/* We have a boundary existing in data. */
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_INVALID;
-		}
-
-		*full_read  = M_TRUE;
-		consume_len = M_parser_mark_len(parser);
-	}
-	M_parser_mark_rewind(parser);
-
-	/* The data before the boundary should end with a \r\n. The only time it
- 	 * doesn't is if there is no preamble. The \r\n is not part of the data. */
-	if (data_len == 1) {
-		M_parser_mark_rewind(parser);
-		return M_HTTP_ERROR_MULTIPART_INVALID;
-	} else if (data_len >= 2) {
-		M_parser_mark(parser);
-		M_parser_consume(parser, data_len-2);
-		if (!M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_INVALID;
-		}
-		data_len -= 2;
-		M_parser_mark_rewind(parser);
+	if (data_len != 0) {
+		res = httpr->cbs.multipart_preamble_func(M_parser_peek(parser), data_len, httpr->thunk);
+		if (res != M_HTTP_ERROR_SUCCESS)
+			return res;
+		M_parser_consume(parser, data_len);
 	}
 
-	if (data_len != 0)
-		res = httpr->cbs.multipart_preamble_func(M_parser_peek(parser), data_len, httpr->thunk);
+	/* What follows the boundary is needed to know what kind it is. */
+	if (delim_len == 0 || M_parser_len(parser) < delim_len + 2)
+		return M_HTTP_ERROR_SUCCESS;
 
-	if (res == M_HTTP_ERROR_SUCCESS)
-		M_parser_consume(parser, consume_len);
+	M_parser_consume(parser, delim_len);
+	/* An ending boundary shouldn't be here. */
+	if (M_parser_compare_str(parser, "--", 2, M_FALSE))
+		return M_HTTP_ERROR_MULTIPART_MISSING_DATA;
+	if (!M_parser_compare_str(parser, "\r\n", 2, M_FALSE))
+		return M_HTTP_ERROR_MULTIPART_INVALID;
+	M_parser_consume(parser, 2);
 
-	return res;
+	*full_read = M_TRUE;
+	return M_HTTP_ERROR_SUCCESS;
 }
 
 static M_http_error_t M_http_read_multipart_data(M_http_reader_t *httpr, M_parser_t *parser, M_bool *full_read)
 {
-	size_t         consume_len;
+	M_http_error_t res = M_HTTP_ERROR_SUCCESS;
 	size_t         data_len;
-	M_http_error_t res   = M_HTTP_ERROR_SUCCESS;
-	M_bool         found = M_FALSE;
+	size_t         delim_len;
 
 	*full_read = M_FALSE;
 	if (M_parser_len(parser) == 0)
 		return M_HTTP_ERROR_SUCCESS;
 
-	M_parser_mark(parser);
-	consume_len = M_parser_consume_boundary(parser, (unsigned char *)httpr->boundary, httpr->boundary_len, M_FALSE, &found);
-	data_len    = consume_len;
-	M_parser_mark_rewind(parser);
-
-	/* The data and boundary are separated by a \r\n which is not part of the data. */
-	if (data_len == 1) {
-		M_parser_mark_rewind(parser);
-		return M_HTTP_ERROR_MULTIPART_INVALID;
-	} else if (data_len >= 2) {
-		M_parser_mark(parser);
-		M_parser_consume(parser, data_len-2);
-		if (!M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_INVALID;
-		}
-		data_len -= 2;
-		M_parser_mark_rewind(parser);
-	}
+	M_http_read_multipart_find_boundary(httpr, parser, &data_len, &delim_len);
 
 	if (data_len != 0) {
 		res = httpr->cbs.multipart_data_func(M_parser_peek(parser), data_len, httpr->part_idx, httpr->thunk);
-		if (res == M_HTTP_ERROR_SUCCESS) {
-			httpr->have_part = M_TRUE;
-		}
+		if (res != M_HTTP_ERROR_SUCCESS)
+			return res;
+		httpr->have_part = M_TRUE;
+		M_parser_consume(parser, data_len);
 	}
 
-	if (res == M_HTTP_ERROR_SUCCESS) {
-		M_parser_consume(parser, consume_len);
-
-		if (found) {
-			/* Eat the boundary. */
-			M_parser_consume(parser, httpr->boundary_len);
-			*full_read = M_TRUE;
-		}
+	if (delim_len != 0) {
+		/* Eat the boundary. */
+		M_parser_consume(parser, delim_len);
+		*full_read = M_TRUE;
 	}
-	return res;
+	return M_HTTP_ERROR_SUCCESS;
 }
 
 static M_http_error_t M_http_read_multipart_check_end(M_http_reader_t *httpr, M_parser_t *parser, M_bool *full_read)
@@ -1025,7 +1011,7 @@ static M_http_error_t M_http_read_multipart_check_end(M_http_reader_t *httpr, M_
 	return M_HTTP_ERROR_SUCCESS;
 }
 
-static M_http_error_t M_http_read_multipart_epilouge(M_http_reader_t *httpr, M_parser_t *parser, M_bool *full_read)
+static M_http_error_t M_http_read_multipart_epilouge(M_http_reader_t *httpr, M_parser_t *parser, M_bool is_end, M_bool *full_read)
 {
 	M_http_error_t res = M_HTTP_ERROR_SUCCESS;
 
@@ -1048,7 +1034,7 @@ static M_http_error_t M_http_read_multipart_epilouge(M_http_reader_t *httpr, M_p
 	}
 
 done:
-	if (httpr->have_body_len && httpr->body_len == httpr->body_len_seen)
+	if (is_end && M_parser_len(parser) == 0)
 		*full_read = M_TRUE;
 	return res;
 }
@@ -1058,6 +1044,8 @@ static M_http_error_t M_http_read_multipart(M_http_reader_t *httpr, M_parser_t *
 	M_parser_t     *mpparser;
 	M_http_error_t  res       = M_HTTP_ERROR_SUCCESS;
 	M_bool          full_read = M_FALSE;
+	M_bool          is_end    = M_FALSE;
+	size_t          len;
 
 	if (httpr->have_body_len && httpr->body_len == httpr->body_len_seen) {
 		if (!httpr->have_part) {
@@ -1069,13 +1057,13 @@ static M_http_error_t M_http_read_multipart(M_http_reader_t *httpr, M_parser_t *
 		}
 	}
 
-	/* Read the data we have left for this message. */
-	if (httpr->have_body_len) {
-		mpparser              = M_parser_read_parser(parser, M_MIN(M_parser_len(parser), httpr->body_len-httpr->body_len_seen));
-		httpr->body_len_seen += M_parser_len(mpparser);
-	} else {
-		mpparser              = M_parser_read_parser(parser, M_parser_len(parser));
+	/* Only look at what is left of this message. What isn't processed yet stays in the parser. */
+	len = M_parser_len(parser);
+	if (httpr->have_body_len && len >= httpr->body_len - httpr->body_len_seen) {
+		len    = httpr->body_len - httpr->body_len_seen;
+		is_end = M_TRUE;
 	}
+	mpparser = M_parser_create_const(M_parser_peek(parser), len, M_PARSER_FLAG_NONE);
 	if (mpparser == NULL)
 		return M_HTTP_ERROR_SUCCESS;
 
@@ -1100,7 +1088,8 @@ header:
 		if (res != M_HTTP_ERROR_SUCCESS || !full_read)
 			goto done;
 
-		httpr->rstep = M_HTTP_READER_STEP_MULTIPART_DATA;
+		httpr->rstep     = M_HTTP_READER_STEP_MULTIPART_DATA;
+		httpr->have_data = M_FALSE;
 		res = httpr->cbs.multipart_header_done_func(httpr->part_idx, httpr->thunk);
 		if (res != M_HTTP_ERROR_SUCCESS)
 			goto done;
@@ -1141,7 +1130,7 @@ header:
 	}
 
 	if (httpr->rstep == M_HTTP_READER_STEP_MULTIPART_EPILOUGE) {
-		res = M_http_read_multipart_epilouge(httpr, mpparser, &full_read);
+		res = M_http_read_multipart_epilouge(httpr, mpparser, is_end, &full_read);
 
 		if (res != M_HTTP_ERROR_SUCCESS || !full_read)
 			goto done;
@@ -1153,7 +1142,21 @@ header:
 	}
 
 done:
+	len -= M_parser_len(mpparser);
 	M_parser_destroy(mpparser);
+	M_parser_consume(parser, len);
+	httpr->body_len_seen += len;
+
+	/* There won't be any more data. */
+	if (res == M_HTTP_ERROR_SUCCESS && is_end && httpr->rstep != M_HTTP_READER_STEP_DONE) {
+		if (!httpr->have_part) {
+			res = M_HTTP_ERROR_MULTIPART_MISSING;
+		} else if (!httpr->have_end) {
+			res = M_HTTP_ERROR_MULTIPART_MISSING_DATA;
+		} else {
+			res = M_HTTP_ERROR_MULTIPART_INVALID;
+		}
+	}
 	return res;
 }
 
@@ -1295,6 +1298,7 @@ M_http_error_t M_http_reader_read(M_http_reader_t *httpr, const unsigned char *d
 	if (httpr->rstep == M_HTTP_READER_STEP_MULTIPART_PREAMBLE ||
 		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_HEADER   ||
 		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_DATA     ||
+		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_CHECK_END ||
 		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_EPILOUGE)
 	{
 		res = M_http_read_multipart(httpr, parser);
diff --git a/formats/http/m_http_reader_int.h b/formats/http/m_http_reader_int.h
index f6093d8..4f1e46d 100644
--- a/formats/http/m_http_reader_int.h
+++ b/formats/http/m_http_reader_int.h
@@ -61,6 +61,7 @@ struct M_http_reader {
 	size_t                          part_idx;
 	M_bool                          have_end;
 	M_bool                          have_part;
+	M_bool                          have_data;
 	M_bool                          have_epilouge;
 	M_http_message_type_t           msg_type;
 };
-- 
2.43.0


From ea9eee4ff89546e3fb2e735e02b6b0376cfffb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 172/277] fix: HTTP responses that never have a body were read
 until close or their content length

---
 formats/http/m_http_reader.c     | 9 ++++++++-
 formats/http/m_http_reader_int.h | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index ce309cb..81219d9 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -394,6 +394,10 @@ static M_http_error_t M_http_read_start_line_response(M_http_reader_t *httpr, M_
 	/* Send along the data. */
 	res = httpr->cbs.start_func(M_HTTP_MESSAGE_TYPE_RESPONSE, version, M_HTTP_METHOD_UNKNOWN, NULL, (M_uint32)code, reason, httpr->thunk);
 	httpr->msg_type = M_HTTP_MESSAGE_TYPE_RESPONSE;
+
+	/* These never have a body, whatever the headers say. */
+	if ((code >= 100 && code <= 199) || code == 204 || code == 304)
+		httpr->no_body_code = M_TRUE;
 	M_free(reason);
 
 	return res;
@@ -1247,7 +1251,10 @@ M_http_error_t M_http_reader_read(M_http_reader_t *httpr, const unsigned char *d
 		if (res != M_HTTP_ERROR_SUCCESS || !full_read)
 			goto done;
 
-		if (httpr->data_type == M_HTTP_DATA_FORMAT_CHUNKED) {
+		if (httpr->no_body_code) {
+			httpr->rstep     = M_HTTP_READER_STEP_DONE;
+			httpr->data_type = M_HTTP_DATA_FORMAT_NONE;
+		} else if (httpr->data_type == M_HTTP_DATA_FORMAT_CHUNKED) {
 			httpr->rstep = M_HTTP_READER_STEP_CHUNK_START;
 		} else if (httpr->data_type == M_HTTP_DATA_FORMAT_MULTIPART) {
 			httpr->rstep = M_HTTP_READER_STEP_MULTIPART_PREAMBLE;
diff --git a/formats/http/m_http_reader_int.h b/formats/http/m_http_reader_int.h
index 4f1e46d..6d9f4a1 100644
--- a/formats/http/m_http_reader_int.h
+++ b/formats/http/m_http_reader_int.h
@@ -55,6 +55,7 @@ struct M_http_reader {
 	M_http_data_format_t            data_type;
 	size_t                          header_len;
 	M_bool                          no_body_method;
+	M_bool                          no_body_code;
 	M_bool                          have_body_len;
 	size_t                          body_len;
 	size_t                          body_len_seen;
-- 
2.43.0


From 891f1080feecb7e0195f43054a7b797574a87951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 173/277] fix: the flag to fail on HTTP chunk extensions was
 the combination of two other flags

---
 include/mstdlib/formats/m_http.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mstdlib/formats/m_http.h b/include/mstdlib/formats/m_http.h
index c7c20f2..28623fa 100644
--- a/include/mstdlib/formats/m_http.h
+++ b/include/mstdlib/formats/m_http.h
@@ -787,10 +787,10 @@ typedef struct M_http_simple_read M_http_simple_read_t;
 
 typedef enum {
 	M_HTTP_SIMPLE_READ_NONE = 0,
-	M_HTTP_SIMPLE_READ_NODECODE_BODY,  /*!< Do not attempt to decode the body data (from detected charset). */
-	M_HTTP_SIMPLE_READ_LEN_REQUIRED,   /*!< Require content-length, cannot be chunked data. */
-	M_HTTP_SIMPLE_READ_FAIL_EXTENSION, /*!< Fail if chunked extensions are specified. Otherwise, Ignore. */
-	M_HTTP_SIMPLE_READ_FAIL_TRAILERS   /*!< Fail if trailers sent. Otherwise, they are ignored. */
+	M_HTTP_SIMPLE_READ_NODECODE_BODY  = 1 << 0, /*!< Do not attempt to decode the body data (from detected charset). */
+	M_HTTP_SIMPLE_READ_LEN_REQUIRED   = 1 << 1, /*!< Require content-length, cannot be chunked data. */
+	M_HTTP_SIMPLE_READ_FAIL_EXTENSION = 1 << 2, /*!< Fail if chunked extensions are specified. Otherwise, Ignore. */
+	M_HTTP_SIMPLE_READ_FAIL_TRAILERS  = 1 << 3  /*!< Fail if trailers sent. Otherwise, they are ignored. */
 } M_http_simple_read_flags_t;
 
 
-- 
2.43.0


From 47b73380f0d8f06e57a0a120ac6d6996c43af28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 174/277] fix: chunked HTTP messages were read when a content
 length is required

---
 formats/http/m_http_simple_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/http/m_http_simple_reader.c b/formats/http/m_http_simple_reader.c
index 3ffb7d3..99b9dfb 100644
--- a/formats/http/m_http_simple_reader.c
+++ b/formats/http/m_http_simple_reader.c
@@ -146,7 +146,7 @@ static M_http_error_t M_http_simple_read_header_done_cb(M_http_data_format_t for
 
 	/* We have a callback to let us know when all the data is done. */
 	if (format == M_HTTP_DATA_FORMAT_CHUNKED)
-		return M_HTTP_ERROR_SUCCESS;
+		return simple->rflags & M_HTTP_SIMPLE_READ_LEN_REQUIRED ? M_HTTP_ERROR_LENGTH_REQUIRED : M_HTTP_ERROR_SUCCESS;
 
 	val = M_http_header(simple->http, "content-length");
 	if (M_str_isempty(val) && simple->rflags & M_HTTP_SIMPLE_READ_LEN_REQUIRED) {
-- 
2.43.0


From 1053b15fbeae02810418d143f5a7b96b37d4492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 175/277] fix: HTTP chunk lengths with a sign or prefix were
 accepted

---
 formats/http/m_http_reader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 81219d9..c2c8cad 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -727,8 +727,10 @@ static M_http_error_t M_http_read_chunk_start(M_http_reader_t *httpr, M_parser_t
 		goto done;
 	}
 
-	/* Read the length. */
-	if (!M_parser_read_int(msg, M_PARSER_INTEGER_ASCII, len, 16, &i64v)) {
+	/* Read the length. It's only digits, a sign or prefix isn't allowed. */
+	if (!M_parser_is_chr_predicate(msg, 1, M_chr_ishex) || M_parser_compare_str(msg, "0x", 2, M_TRUE) ||
+		!M_parser_read_int(msg, M_PARSER_INTEGER_ASCII, len, 16, &i64v))
+	{
 		res = M_HTTP_ERROR_CHUNK_LENGTH;
 		goto done;
 	}
-- 
2.43.0


From 5f3e30f4e8c7a45d8578b74366f2aaeacbc9c308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 176/277] fix: an empty line in place of an HTTP chunk length
 was waited on forever

---
 formats/http/m_http_reader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index c2c8cad..68b9357 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -703,6 +703,9 @@ static M_http_error_t M_http_read_chunk_start(M_http_reader_t *httpr, M_parser_t
 		return M_HTTP_ERROR_SUCCESS;
 
 	/* Check if we have a full line and pull it off. */
+	if (M_parser_compare_str(parser, "\r\n", 2, M_FALSE))
+		return M_HTTP_ERROR_CHUNK_MALFORMED;
+
 	msg = M_parser_read_parser_until(parser, (const unsigned char *)"\r\n", 2, M_FALSE);
 	if (msg == NULL)
 		return M_HTTP_ERROR_SUCCESS;
-- 
2.43.0


From 66e8a5ac78d66e75ad9e5ec41b7f01b87337b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 177/277] fix: HTTP header values of only modifiers were leaked

---
 formats/http/m_http_header.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/formats/http/m_http_header.c b/formats/http/m_http_header.c
index 7c5500a..5da487a 100644
--- a/formats/http/m_http_header.c
+++ b/formats/http/m_http_header.c
@@ -137,6 +137,12 @@ static M_bool M_http_header_split_value_and_modifiers(const char *full_value, ch
 
 	/* Value is always the first element. */
 	*value = M_strdup_trim(parts[0]);
+	if (M_str_isempty(*value)) {
+		M_free(*value);
+		*value = NULL;
+		M_str_explode_free(parts, num_parts);
+		return M_FALSE;
+	}
 
 	/* Setup the modifier list. */
 	*modifiers = M_hash_dict_create(8, 75, M_HASH_DICT_CASECMP|M_HASH_DICT_KEYS_ORDERED);
-- 
2.43.0


From 5fce9e46185dd94e81a744ffcd3149a1442eaab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 178/277] fix: the end of empty HTTP headers without a start
 line was skipped

---
 formats/http/m_http_reader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 68b9357..077d71f 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -1222,8 +1222,10 @@ M_http_error_t M_http_reader_read(M_http_reader_t *httpr, const unsigned char *d
 		/* We want to consume any and all new lines that might start the data.
 		 * If multiple http messages were packed together in one stream there could
 		 * be a new line at the end of the previous stream. We want to ignore this
-		 * because, while valid to be there, it's not really part of either message. */
-		M_parser_consume_whitespace(parser, M_PARSER_WHITESPACE_NONE);
+		 * because, while valid to be there, it's not really part of either message.
+		 * Without a start line a new line is the end of the (empty) headers. */
+		if (!(httpr->flags & M_HTTP_READER_SKIP_START))
+			M_parser_consume_whitespace(parser, M_PARSER_WHITESPACE_NONE);
 
 		/* No data following, we need more. Maybe there is more whitespace
 		 * following we need to eat. */
-- 
2.43.0


From 1b6890b9c88031273b4acb5e10bd7a329c3ce8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 179/277] fix: reading an HTTP message from no data destroyed
 an uninitialized object

---
 formats/http/m_http_simple_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/http/m_http_simple_reader.c b/formats/http/m_http_simple_reader.c
index 99b9dfb..ec3bdc9 100644
--- a/formats/http/m_http_simple_reader.c
+++ b/formats/http/m_http_simple_reader.c
@@ -489,6 +489,7 @@ M_http_error_t M_http_simple_read(M_http_simple_read_t **simple, const unsigned
 		have_simple = M_FALSE;
 		simple      = &sr;
 	}
+	*simple = NULL;
 
 	if (data == NULL || data_len == 0) {
 		res = M_HTTP_ERROR_MOREDATA;
-- 
2.43.0


From a7532a039d7ecd147dd38e5df903fc0dfd217708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:37 +0000
Subject: [PATCH 180/277] fix: HTTP URIs with a colon after the host, an IPv6
 address, an upper case scheme or a bad port were misread

---
 formats/http/m_http_uri.c | 55 +++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/formats/http/m_http_uri.c b/formats/http/m_http_uri.c
index 26c87b2..1634a1b 100644
--- a/formats/http/m_http_uri.c
+++ b/formats/http/m_http_uri.c
@@ -34,7 +34,9 @@
  * a standard URI parsing module. */
 static M_bool M_http_uri_parser_host(M_parser_t *parser, char **host, M_uint16 *port)
 {
-	M_uint64 myport = 0;
+	M_parser_t *authority = NULL;
+	char       *temp      = NULL;
+	M_uint64    myport    = 0;
 
 	if (parser == NULL || host == NULL || port == NULL)
 		return M_FALSE;
@@ -43,46 +45,47 @@ static M_bool M_http_uri_parser_host(M_parser_t *parser, char **host, M_uint16 *
 	*port = 0;
 
 	/* Check if an absolute URI that contains the host. */
-	if (!M_parser_compare_str(parser, "http://", 7, M_FALSE) && !M_parser_compare_str(parser, "https://", 8, M_FALSE))
+	if (!M_parser_compare_str(parser, "http://", 7, M_TRUE) && !M_parser_compare_str(parser, "https://", 8, M_TRUE))
 		return M_TRUE;
 
-	/* Move past the prefix. */
 	M_parser_consume_str_until(parser, "://", M_TRUE);
 
-	/* Mark the start of the host. */
-	M_parser_mark(parser);
+	/* The host and port end where the path or query args start. */
+	temp      = M_parser_read_strdup_not_charset(parser, "/?#");
+	authority = M_parser_create_const((const unsigned char *)temp, M_str_len(temp), M_PARSER_FLAG_NONE);
+	if (authority == NULL)
+		goto err;
 
-	if (M_parser_consume_str_until(parser, ":", M_FALSE) != 0) {
-		/* Having a ":" means we have a port so everything before is
-		 * the host. */
-		*host = M_parser_read_strdup_mark(parser);
+	/* An IPv6 address is in brackets because it has colons itself. */
+	if (M_parser_compare_str(authority, "[", 1, M_FALSE)) {
+		*host = M_parser_read_strdup_until(authority, "]", M_TRUE);
+	} else {
+		*host = M_parser_read_strdup_not_charset(authority, ":");
+	}
+	if (M_str_isempty(*host))
+		goto err;
 
-		/* kill the ":". */
-		M_parser_consume(parser, 1);
+	/* A port is optional. */
+	if (M_parser_len(authority) != 0) {
+		if (!M_parser_compare_str(authority, ":", 1, M_FALSE))
+			goto err;
+		M_parser_consume(authority, 1);
 
-		/* Read the port. */
-		if (!M_parser_read_uint(parser, M_PARSER_INTEGER_ASCII, 0, 10, &myport)) {
+		if (!M_parser_is_chr_predicate(authority, M_parser_len(authority), M_chr_isdigit) ||
+			!M_parser_read_uint(authority, M_PARSER_INTEGER_ASCII, 0, 10, &myport) || myport > M_UINT16_MAX)
+		{
 			goto err;
 		}
 		*port = (M_uint16)myport;
-	} else if (M_parser_consume_str_until(parser, "/", M_FALSE) != 0) {
-		/* No port was specified try to find the start of the path. */
-		*host = M_parser_read_strdup_mark(parser);
 	}
 
-	/* No port and no path, all we have is the host. */
-	if (*host == NULL) {
-		M_parser_mark_clear(parser);
-		*host = M_parser_read_strdup(parser, M_parser_len(parser));
-	}
-
-	/* We should have host... */
-	if (M_str_isempty(*host))
-		goto err;
-
+	M_parser_destroy(authority);
+	M_free(temp);
 	return M_TRUE;
 
 err:
+	M_parser_destroy(authority);
+	M_free(temp);
 	M_free(*host);
 	*host = NULL;
 	*port = 0;
-- 
2.43.0


From 4de8aa339942eb3edef5cf9d2c4aaec15b53de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:37 +0000
Subject: [PATCH 181/277] fix: HTTP URIs with a host and a query but no path
 were refused

---
 formats/http/m_http_uri.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/formats/http/m_http_uri.c b/formats/http/m_http_uri.c
index 1634a1b..d1461fa 100644
--- a/formats/http/m_http_uri.c
+++ b/formats/http/m_http_uri.c
@@ -92,7 +92,7 @@ err:
 	return M_FALSE;
 }
 
-static M_bool M_http_uri_parser_path(M_http_t *http, M_parser_t *parser, char **path)
+static M_bool M_http_uri_parser_path(M_http_t *http, M_parser_t *parser, M_bool have_host, char **path)
 {
 	unsigned char  byte;
 	char          *p = NULL;
@@ -105,7 +105,14 @@ static M_bool M_http_uri_parser_path(M_http_t *http, M_parser_t *parser, char **
 	if (M_parser_len(parser) == 0)
 		return M_TRUE;
 
-	if (!M_parser_peek_byte(parser, &byte) || (byte != '/' && byte != '*'))
+	if (!M_parser_peek_byte(parser, &byte))
+		goto err;
+
+	/* The path can be empty when there is a host. */
+	if (byte == '?' && have_host)
+		return M_TRUE;
+
+	if (byte != '/' && byte != '*')
 		goto err;
 
 	/* Only the options method is allowed to apply to the server itself.
@@ -189,7 +196,7 @@ M_bool M_http_set_uri(M_http_t *http, const char *uri)
 		return M_FALSE;
 
 	if (!M_http_uri_parser_host(parser, &host, &port) ||
-		!M_http_uri_parser_path(http, parser, &path) ||
+		!M_http_uri_parser_path(http, parser, host != NULL, &path) ||
 		!M_http_uri_parser_query_args(parser, &query_string, &query_args))
 	{
 		M_parser_destroy(parser);
-- 
2.43.0


From eae477a9a6a735fa1661d3eaecc4239772208935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:37 +0000
Subject: [PATCH 182/277] fix: an encoded NUL truncated the path of an HTTP URI

---
 formats/http/m_http_uri.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/formats/http/m_http_uri.c b/formats/http/m_http_uri.c
index d1461fa..21739a7 100644
--- a/formats/http/m_http_uri.c
+++ b/formats/http/m_http_uri.c
@@ -127,6 +127,10 @@ static M_bool M_http_uri_parser_path(M_http_t *http, M_parser_t *parser, M_bool
 	if (p == NULL)
 		goto err;
 
+	/* A path can't hold a NUL, it would end there. */
+	if (M_str_str(p, "%00") != NULL)
+		goto err;
+
 	if (M_textcodec_error_is_error(M_textcodec_decode(path, p, M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_PERCENT_URL)))
 		goto err;
 
-- 
2.43.0


From adf59e348cbabc78e109f41e96cd84eec59ac734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:17 +0000
Subject: [PATCH 183/277] fix: HTTP OPTIONS requests for the server itself
 could not be read

---
 formats/http/m_http_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 077d71f..c0cd283 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -435,6 +435,7 @@ static M_http_error_t M_http_read_start_line_request(M_http_reader_t *httpr, M_p
 	uri  = M_parser_read_strdup(parts[1], M_parser_len(parts[1]));
 	http = M_http_create();
 	/* Validate the uri. */
+	M_http_set_method(http, method);
 	if (!M_http_set_uri(http, uri)) {
 		res = M_HTTP_ERROR_URI;
 		goto done;
-- 
2.43.0


From f32ed1b48456f99ac5b2d87761f9e6aa78c2158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:17 +0000
Subject: [PATCH 184/277] fix: line ends in the URI of a written HTTP request
 were not encoded

---
 formats/http/m_http_simple_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/http/m_http_simple_writer.c b/formats/http/m_http_simple_writer.c
index 4f475eb..953378b 100644
--- a/formats/http/m_http_simple_writer.c
+++ b/formats/http/m_http_simple_writer.c
@@ -294,12 +294,12 @@ M_API M_bool M_http_simple_write_request_buf(M_buf_t *buf, M_http_method_t metho
 	M_buf_add_str(buf, M_http_method_to_str(method));
 	M_buf_add_byte(buf, ' ');
 
-	/* We expect the uri to be encoded. We'll check for spaces and
+	/* We expect the uri to be encoded. We'll check for spaces, control and
 	 * non-ascii characters. If found we'll encode it to be safe because
 	 * we don't want to build an invalid request. We're going to use URL minimal
 	 * encoding to try to fix any thing that shouldn't be there. Minimal will
 	 * keep things like '/' so we won't end up with something unreadable. */
-	if (M_str_chr(uri, ' ') != NULL || !M_str_isascii(uri)) {
+	if (!M_str_ispredicate(uri, M_chr_isgraph)) {
 		if (M_textcodec_encode_buf(buf, uri, M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_PERCENT_URLMIN) != M_TEXTCODEC_ERROR_SUCCESS) {
 			goto err;
 		}
-- 
2.43.0


From 970ef9dfd14dc2bb2f0ef3680512b3e1fdd31c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:17 +0000
Subject: [PATCH 185/277] fix: the user agent of a written HTTP request did not
 override the header

---
 formats/http/m_http_simple_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/formats/http/m_http_simple_writer.c b/formats/http/m_http_simple_writer.c
index 953378b..ead0a99 100644
--- a/formats/http/m_http_simple_writer.c
+++ b/formats/http/m_http_simple_writer.c
@@ -100,8 +100,10 @@ static M_hash_dict_t *M_http_simple_write_request_headers(const M_hash_dict_t *h
 	}
 
 	/* Add the user agent. */
-	if (!M_str_isempty(user_agent))
+	if (!M_str_isempty(user_agent)) {
+		M_hash_dict_remove(myheaders, "User-Agent");
 		M_hash_dict_insert(myheaders, "User-Agent", user_agent);
+	}
 
 	return myheaders;
 }
-- 
2.43.0


From 08b86db2af9064705b7c8dc7fc371a2db6cac41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 186/277] fix: a removed or changed HTTP content type was still
 in effect

---
 formats/http/m_http_headers.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/formats/http/m_http_headers.c b/formats/http/m_http_headers.c
index 4c3a68b..2f561dd 100644
--- a/formats/http/m_http_headers.c
+++ b/formats/http/m_http_headers.c
@@ -160,6 +160,7 @@ static void M_http_update_ctype(M_http_t *http)
 		M_free(http->charset);
 		http->charset = NULL;
 		http->codec = M_TEXTCODEC_UNKNOWN;
+		http->body_is_form_data = M_FALSE;
 		return;
 	}
 
@@ -180,8 +181,7 @@ static void M_http_update_ctype(M_http_t *http)
 
 	M_free(http->content_type);
 	http->content_type = M_strdup_trim(value);
-	if (M_str_caseeq(http->content_type, "application/x-www-form-urlencoded"))
-		http->body_is_form_data = M_TRUE;
+	http->body_is_form_data = M_str_caseeq(http->content_type, "application/x-www-form-urlencoded");
 
 	M_free(http->charset);
 	http->charset = NULL;
@@ -294,6 +294,8 @@ void M_http_remove_header(M_http_t *http, const char *key)
 		return;
 
 	M_hash_strvp_remove(http->headers, key, M_TRUE);
+	if (M_str_caseeq(key, "Content-Type"))
+		M_http_update_ctype(http);
 }
 
 const M_list_str_t *M_http_get_set_cookie(const M_http_t *http)
-- 
2.43.0


From 0b24b3ffa1a72041f074cbf3d7f8c6404d905ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 187/277] fix: HTTP cookies were split, combined and not
 returned

---
 formats/http/m_http_header.c        |  2 +-
 formats/http/m_http_headers.c       | 38 ++++++++++++++++++++++-------
 formats/http/m_http_simple_writer.c |  8 ++++++
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/formats/http/m_http_header.c b/formats/http/m_http_header.c
index 5da487a..bfe9239 100644
--- a/formats/http/m_http_header.c
+++ b/formats/http/m_http_header.c
@@ -44,7 +44,7 @@ static M_bool M_http_header_nosplit(const char *key)
 		return M_FALSE;
 
 	if (M_str_caseeq(key, "WWW-Authenticate") || M_str_caseeq(key, "Proxy-Authorization") ||
-		M_str_caseeq(key, "Content-Type") || M_str_caseeq(key, "Date"))
+		M_str_caseeq(key, "Content-Type") || M_str_caseeq(key, "Date") || M_str_caseeq(key, "Set-Cookie"))
 	{
 		return M_TRUE;
 	}
diff --git a/formats/http/m_http_headers.c b/formats/http/m_http_headers.c
index 2f561dd..f614c6d 100644
--- a/formats/http/m_http_headers.c
+++ b/formats/http/m_http_headers.c
@@ -57,7 +57,7 @@ static M_hash_dict_t *M_http_headers_dict_int(M_hash_strvp_t *headers)
 	return headers_dict;
 }
 
-static void M_http_set_headers_int(M_hash_strvp_t **cur_headers, const M_hash_dict_t *new_headers, M_bool merge)
+static void M_http_set_headers_int(M_hash_strvp_t **cur_headers, M_list_str_t *set_cookies, const M_hash_dict_t *new_headers, M_bool merge)
 {
 	M_hash_dict_enum_t *he;
 	const char         *key;
@@ -82,6 +82,12 @@ static void M_http_set_headers_int(M_hash_strvp_t **cur_headers, const M_hash_di
 	while (M_hash_dict_enumerate_next(new_headers, he, &key, &oval)) {
 		M_http_header_t *hval;
 
+		/* Cookies can't be combined and are kept apart. */
+		if (set_cookies != NULL && M_str_caseeq(key, "Set-Cookie")) {
+			M_list_str_insert(set_cookies, oval);
+			continue;
+		}
+
 		hval = M_hash_strvp_get_direct(*cur_headers, key);
 		if (hval == NULL) {
 			hval = M_http_header_create(key, oval);
@@ -94,7 +100,7 @@ static void M_http_set_headers_int(M_hash_strvp_t **cur_headers, const M_hash_di
 	M_hash_dict_enumerate_free(he);
 }
 
-static M_bool M_http_set_header_int(M_hash_strvp_t **d, const char *key, const char *val, M_bool append)
+static M_bool M_http_set_header_int(M_hash_strvp_t **d, M_list_str_t *set_cookies, const char *key, const char *val, M_bool append)
 {
 	M_hash_dict_t *new_headers;
 
@@ -111,11 +117,17 @@ static M_bool M_http_set_header_int(M_hash_strvp_t **d, const char *key, const c
 	M_hash_dict_insert(new_headers, key, val);
 	/* Merge and d exists so we don't have to worry about d
 	 * changing within this function. */
-	M_http_set_headers_int(d, new_headers, M_TRUE);
+	M_http_set_headers_int(d, set_cookies, new_headers, M_TRUE);
 	M_hash_dict_destroy(new_headers);
 	return M_TRUE;
 }
 
+static void M_http_set_cookie_clear(M_http_t *http)
+{
+	while (M_list_str_len(http->set_cookies) != 0)
+		M_list_str_remove_last(http->set_cookies);
+}
+
 static char *M_http_header_int(const M_hash_strvp_t *d, const char *key)
 {
 	M_http_header_t *hval;
@@ -253,7 +265,10 @@ void M_http_set_headers(M_http_t *http, const M_hash_dict_t *headers, M_bool mer
 	if (http == NULL)
 		return;
 
-	M_http_set_headers_int(&http->headers, headers, merge);
+	if (!merge)
+		M_http_set_cookie_clear(http);
+
+	M_http_set_headers_int(&http->headers, http->set_cookies, headers, merge);
 
 	/* headers dict might not be casecmp so we can't check it
 	 * directly if the content-type header is in there or not. */
@@ -265,7 +280,10 @@ M_bool M_http_set_header(M_http_t *http, const char *key, const char *val)
 	if (http == NULL)
 		return M_FALSE;
 
-	if (!M_http_set_header_int(&http->headers, key, val, M_FALSE))
+	if (M_str_caseeq(key, "Set-Cookie"))
+		M_http_set_cookie_clear(http);
+
+	if (!M_http_set_header_int(&http->headers, http->set_cookies, key, val, M_FALSE))
 		return M_FALSE;
 
 	if (M_str_caseeq(key, "Content-Type"))
@@ -279,7 +297,7 @@ M_bool M_http_add_header(M_http_t *http, const char *key, const char *val)
 	if (http == NULL || M_str_isempty(key) || M_str_isempty(val))
 		return M_FALSE;
 
-	if (!M_http_set_header_int(&http->headers, key, val, M_TRUE))
+	if (!M_http_set_header_int(&http->headers, http->set_cookies, key, val, M_TRUE))
 		return M_FALSE;
 
 	if (M_str_caseeq(key, "Content-Type"))
@@ -294,6 +312,8 @@ void M_http_remove_header(M_http_t *http, const char *key)
 		return;
 
 	M_hash_strvp_remove(http->headers, key, M_TRUE);
+	if (M_str_caseeq(key, "Set-Cookie"))
+		M_http_set_cookie_clear(http);
 	if (M_str_caseeq(key, "Content-Type"))
 		M_http_update_ctype(http);
 }
@@ -349,7 +369,7 @@ void M_http_set_trailers(M_http_t *http, const M_hash_dict_t *headers, M_bool me
 	if (http == NULL)
 		return;
 
-	M_http_set_headers_int(&http->trailers, headers, merge);
+	M_http_set_headers_int(&http->trailers, NULL, headers, merge);
 }
 
 M_bool M_http_set_trailer(M_http_t *http, const char *key, const char *val)
@@ -357,7 +377,7 @@ M_bool M_http_set_trailer(M_http_t *http, const char *key, const char *val)
 	if (http == NULL)
 		return M_FALSE;
 
-	return M_http_set_header_int(&http->trailers, key, val, M_FALSE);
+	return M_http_set_header_int(&http->trailers, NULL, key, val, M_FALSE);
 }
 
 M_bool M_http_add_trailer(M_http_t *http, const char *key, const char *val)
@@ -365,7 +385,7 @@ M_bool M_http_add_trailer(M_http_t *http, const char *key, const char *val)
 	if (http == NULL || M_str_isempty(key) || M_str_isempty(val))
 		return M_FALSE;
 
-	return M_http_set_header_int(&http->trailers, key, val, M_TRUE);
+	return M_http_set_header_int(&http->trailers, NULL, key, val, M_TRUE);
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
diff --git a/formats/http/m_http_simple_writer.c b/formats/http/m_http_simple_writer.c
index ead0a99..7263745 100644
--- a/formats/http/m_http_simple_writer.c
+++ b/formats/http/m_http_simple_writer.c
@@ -236,6 +236,14 @@ static M_bool M_http_simple_write_int(M_buf_t *buf, const char *content_type, co
 	}
 	M_list_str_destroy(header_keys);
 
+	/* There is a header for each cookie. */
+	len = M_list_str_len(M_http_get_set_cookie(http));
+	for (i=0; i<len; i++) {
+		M_buf_add_str(buf, "Set-Cookie: ");
+		M_buf_add_str(buf, M_list_str_at(M_http_get_set_cookie(http), i));
+		M_buf_add_str(buf, "\r\n");
+	}
+
 	/* End of start/headers. */
 	M_buf_add_str(buf, "\r\n");
 
-- 
2.43.0


From a1066d57a0cfd973f9ca89fc2f100da247d4cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 188/277] fix: modifiers of HTTP header values were cut off at
 a second equal sign

---
 formats/http/m_http_header.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/http/m_http_header.c b/formats/http/m_http_header.c
index bfe9239..de4f077 100644
--- a/formats/http/m_http_header.c
+++ b/formats/http/m_http_header.c
@@ -154,7 +154,7 @@ static M_bool M_http_header_split_value_and_modifiers(const char *full_value, ch
 		char    *key;
 		char    *val;
 
-		mparts = M_str_explode_str('=', parts[i], &num_mparts);
+		mparts = M_str_explode_str_quoted('=', parts[i], 0, 0, 2, &num_mparts);
 		if (mparts == NULL || num_mparts == 0) {
 			M_str_explode_free(mparts, num_mparts);
 			continue;
-- 
2.43.0


From ffeaed8da0d2bc9d1bcf40f9fcea67b5fae71511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 189/277] fix: line ends in HTTP headers and reasons were
 written as further headers

---
 formats/http/m_http_simple_writer.c | 34 ++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/formats/http/m_http_simple_writer.c b/formats/http/m_http_simple_writer.c
index 7263745..1d130b1 100644
--- a/formats/http/m_http_simple_writer.c
+++ b/formats/http/m_http_simple_writer.c
@@ -109,6 +109,24 @@ static M_hash_dict_t *M_http_simple_write_request_headers(const M_hash_dict_t *h
 }
 
 /* Adds headers and body. */
+/* Lines can't be in a line and would end up as headers or messages of their own. */
+static M_bool M_http_writer_is_line(const char *s)
+{
+	return M_str_chr(s, '\r') == NULL && M_str_chr(s, '\n') == NULL;
+}
+
+static M_bool M_http_writer_add_header(M_buf_t *buf, const char *key, const char *val)
+{
+	if (!M_http_writer_is_line(key) || M_str_chr(key, ':') != NULL || !M_http_writer_is_line(val))
+		return M_FALSE;
+
+	M_buf_add_str(buf, key);
+	M_buf_add_str(buf, ": ");
+	M_buf_add_str(buf, val);
+	M_buf_add_str(buf, "\r\n");
+	return M_TRUE;
+}
+
 static M_bool M_http_simple_write_int(M_buf_t *buf, const char *content_type, const M_hash_dict_t *headers,
 		const unsigned char *data, size_t data_len, const char *charset)
 {
@@ -225,12 +243,13 @@ static M_bool M_http_simple_write_int(M_buf_t *buf, const char *content_type, co
 		/* Get the combined header value. */
 		temp = M_http_header(http, key);
 
-		M_buf_add_str(buf, key);
 		/* We're adding the optional white space after the colon because it's
 		 * easier to read when looking at a trace. */
-		M_buf_add_str(buf, ": ");
-		M_buf_add_str(buf, temp);
-		M_buf_add_str(buf, "\r\n");
+		if (!M_http_writer_add_header(buf, key, temp)) {
+			M_free(temp);
+			M_list_str_destroy(header_keys);
+			goto err;
+		}
 
 		M_free(temp);
 	}
@@ -239,9 +258,8 @@ static M_bool M_http_simple_write_int(M_buf_t *buf, const char *content_type, co
 	/* There is a header for each cookie. */
 	len = M_list_str_len(M_http_get_set_cookie(http));
 	for (i=0; i<len; i++) {
-		M_buf_add_str(buf, "Set-Cookie: ");
-		M_buf_add_str(buf, M_list_str_at(M_http_get_set_cookie(http), i));
-		M_buf_add_str(buf, "\r\n");
+		if (!M_http_writer_add_header(buf, "Set-Cookie", M_list_str_at(M_http_get_set_cookie(http), i)))
+			goto err;
 	}
 
 	/* End of start/headers. */
@@ -376,7 +394,7 @@ M_bool M_http_simple_write_response_buf(M_buf_t *buf, M_uint32 code, const char
 	M_buf_add_str(buf, reason);
 	M_buf_add_str(buf, "\r\n");
 
-	if (!M_http_simple_write_int(buf, content_type, headers, data, data_len, charset)) {
+	if (!M_http_writer_is_line(reason) || !M_http_simple_write_int(buf, content_type, headers, data, data_len, charset)) {
 		M_buf_truncate(buf, start_len);
 		return M_FALSE;
 	}
-- 
2.43.0


From fa844640a7cf34234449cd05b90de514dc798435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 190/277] fix: the Host header of HTTP requests was misread for
 IPv6 addresses and ports out of range

---
 formats/http/m_http_simple_reader.c | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/formats/http/m_http_simple_reader.c b/formats/http/m_http_simple_reader.c
index ec3bdc9..823d27d 100644
--- a/formats/http/m_http_simple_reader.c
+++ b/formats/http/m_http_simple_reader.c
@@ -42,27 +42,23 @@ static M_bool M_http_simple_read_parse_host(const char *full_host, char **host,
 
 	parser = M_parser_create_const((const unsigned char *)full_host, M_str_len(full_host), M_PARSER_FLAG_NONE);
 
-	/* Move past any prefix. */
+	/* Move past the prefix. */
 	M_parser_consume_str_until(parser, "://", M_TRUE);
 
-	/* Mark the start of the host. */
-	M_parser_mark(parser);
-
-	if (M_parser_consume_str_until(parser, ":", M_FALSE) != 0) {
-		/* Having a ":" means we have a port so everything before is
-		 * the host. */
-		*host = M_parser_read_strdup_mark(parser);
+	/* Everything before a port is the host. An IPv6 address is in brackets
+	 * because it has colons itself. */
+	if (M_parser_compare_str(parser, "[", 1, M_FALSE)) {
+		*host = M_parser_read_strdup_until(parser, "]", M_TRUE);
+	} else {
+		*host = M_parser_read_strdup_not_charset(parser, ":");
+	}
 
-		/* kill the ":". */
+	/* Read the port. */
+	if (M_parser_compare_str(parser, ":", 1, M_FALSE)) {
 		M_parser_consume(parser, 1);
-
-		/* Read the port. */
-		if (M_parser_read_uint(parser, M_PARSER_INTEGER_ASCII, 0, 10, &myport)) {
+		if (M_parser_read_uint(parser, M_PARSER_INTEGER_ASCII, 0, 10, &myport) && myport <= M_UINT16_MAX) {
 			*port = (M_uint16)myport;
 		}
-	} else {
-		M_parser_mark_clear(parser);
-		*host = M_parser_read_strdup(parser, M_parser_len(parser));
 	}
 
 	M_parser_destroy(parser);
-- 
2.43.0


From cf8cb628a0c9158a06d7c1b89d53c48a9076df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:12 +0000
Subject: [PATCH 191/277] fix: headers of HTTP requests that can't be written
 were leaked

---
 formats/http/m_http_simple_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/http/m_http_simple_writer.c b/formats/http/m_http_simple_writer.c
index 1d130b1..e261c37 100644
--- a/formats/http/m_http_simple_writer.c
+++ b/formats/http/m_http_simple_writer.c
@@ -351,6 +351,7 @@ M_API M_bool M_http_simple_write_request_buf(M_buf_t *buf, M_http_method_t metho
 	return M_TRUE;
 
 err:
+	M_hash_dict_destroy(myheaders);
 	M_buf_truncate(buf, start_len);
 	return M_FALSE;
 }
-- 
2.43.0


From 2eba022d198f0c036b320ca496e4f5a5d9a8fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 192/277] fix: renamed columns of a table were still found by
 their old name and could take another column's name

---
 formats/table/m_table.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/formats/table/m_table.c b/formats/table/m_table.c
index 74912f9..e128158 100644
--- a/formats/table/m_table.c
+++ b/formats/table/m_table.c
@@ -344,16 +344,25 @@ const char *M_table_column_name(const M_table_t *table, size_t idx)
 
 M_bool M_table_column_set_name(M_table_t *table, size_t idx, const char *colname)
 {
-	M_uint64 colid;
+	const char *oldname;
+	M_uint64    colid;
+	M_uint64    othid;
 
 	if (table == NULL || idx >= M_list_u64_len(table->col_order))
 		return M_FALSE;
 
 	colid = M_list_u64_at(table->col_order, idx);
 
+	/* The name can't be taken from another column. */
+	if (!M_str_isempty(colname) && M_hash_stru64_get(table->col_name_id, colname, &othid) && othid != colid)
+		return M_FALSE;
+
+	/* The column isn't known by its old name anymore. */
+	if (M_hash_u64str_get(table->col_id_name, colid, &oldname))
+		M_hash_stru64_remove(table->col_name_id, oldname);
+
 	if (M_str_isempty(colname)) {
 		M_hash_u64str_remove(table->col_id_name, colid);
-		M_hash_stru64_remove(table->col_name_id, colname);
 	} else {
 		M_hash_u64str_insert(table->col_id_name, colid, colname);
 		M_hash_stru64_insert(table->col_name_id, colname, colid);
-- 
2.43.0


From f1155758e6f41742ad031fd070ebdff7579cd94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 193/277] fix: tables weren't sorted by columns given by index

---
 formats/table/m_table.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/formats/table/m_table.c b/formats/table/m_table.c
index e128158..3258b98 100644
--- a/formats/table/m_table.c
+++ b/formats/table/m_table.c
@@ -407,13 +407,18 @@ void M_table_column_sort_data(M_table_t *table, const char *colname, M_sort_comp
 void M_table_column_sort_data_at(M_table_t *table, size_t idx, M_sort_compar_t primary_sort, size_t secondary_idx, M_sort_compar_t secondary_sort, void *thunk)
 {
 	M_uint64 colid;
-	M_uint64 secondary_colid;
+	M_uint64 secondary_colid = 0;
 
-	if (table == NULL || idx <= M_list_u64_len(table->col_order) || secondary_idx <= M_list_u64_len(table->col_order))
+	if (table == NULL || idx >= M_list_u64_len(table->col_order))
 		return;
 
-	colid           = M_list_u64_at(table->col_order, idx);
-	secondary_colid = M_list_u64_at(table->col_order, secondary_idx);
+	if (secondary_sort != NULL) {
+		if (secondary_idx >= M_list_u64_len(table->col_order))
+			return;
+		secondary_colid = M_list_u64_at(table->col_order, secondary_idx);
+	}
+
+	colid = M_list_u64_at(table->col_order, idx);
 	M_table_column_sort_data_int(table, colid, primary_sort, secondary_colid, secondary_sort, thunk);
 }
 
-- 
2.43.0


From 331a56638615e26fe7c5844dd04185ea91e88a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 194/277] fix: setting cells from a dict in a row that doesn't
 exist was reported as success

---
 formats/table/m_table.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/formats/table/m_table.c b/formats/table/m_table.c
index 3258b98..36e406f 100644
--- a/formats/table/m_table.c
+++ b/formats/table/m_table.c
@@ -708,6 +708,9 @@ M_bool M_table_cell_set_dict(M_table_t *table, size_t row, const M_hash_dict_t *
 	const char         *key;
 	const char         *val;
 
+	if (table == NULL || row >= M_list_u64_len(table->row_order))
+		return M_FALSE;
+
 	/* Validate the row flags. We don't want to start adding anything if
  	 * we're supposed to fail on missing column. */
 	if (!(flags & (M_TABLE_INSERT_COLIGNORE|M_TABLE_INSERT_COLADD))) {
-- 
2.43.0


From 017d432cdb21e870f32977d94416348bd57a8549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 195/277] fix: CSV data without header lost the columns the
 table didn't have yet

---
 formats/table/m_table_csv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/table/m_table_csv.c b/formats/table/m_table_csv.c
index 5e936a9..fda101a 100644
--- a/formats/table/m_table_csv.c
+++ b/formats/table/m_table_csv.c
@@ -64,7 +64,7 @@ M_bool M_table_load_csv(M_table_t *table, const char *data, size_t len, char del
 	} else {
 		table_numcols = M_table_column_count(table);
 		csv_numcols   = M_csv_raw_num_cols(csv);
-		for (i=csv_numcols; i<table_numcols; i++) {
+		for (i=table_numcols; i<csv_numcols; i++) {
 			M_table_column_insert(table, NULL);
 		}
 	}
-- 
2.43.0


From 2b3c6f7587b582153b59eda02fbeac4184663a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 196/277] fix: cells of CSV columns without a name were put in
 another column

---
 formats/table/m_table_csv.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/formats/table/m_table_csv.c b/formats/table/m_table_csv.c
index fda101a..bb7d1ff 100644
--- a/formats/table/m_table_csv.c
+++ b/formats/table/m_table_csv.c
@@ -37,7 +37,7 @@ M_bool M_table_load_csv(M_table_t *table, const char *data, size_t len, char del
 	size_t      csv_numrows;
 	size_t      table_numcols;
 	size_t      rowidx;
-	size_t      colidx;
+	size_t     *colidxs;
 	size_t      i;
 	size_t      j;
 
@@ -55,18 +55,25 @@ M_bool M_table_load_csv(M_table_t *table, const char *data, size_t len, char del
 	/* Ensure we have all the header or enough columns. */
 	if (have_header) {
 		csv_numcols = M_csv_get_numcols(csv);
+		colidxs     = M_malloc_zero((csv_numcols + 1) * sizeof(*colidxs));
 		for (i=0; i<csv_numcols; i++) {
 			colname = M_csv_get_header(csv, i);
-			if (!M_table_column_idx(table, colname, NULL)) {
+			/* Columns without a name can't be looked up by it. */
+			if (M_str_isempty(colname) || !M_table_column_idx(table, colname, &colidxs[i])) {
+				colidxs[i] = M_table_column_count(table);
 				M_table_column_insert(table, colname);
 			}
 		}
 	} else {
 		table_numcols = M_table_column_count(table);
 		csv_numcols   = M_csv_raw_num_cols(csv);
+		colidxs       = M_malloc_zero((csv_numcols + 1) * sizeof(*colidxs));
 		for (i=table_numcols; i<csv_numcols; i++) {
 			M_table_column_insert(table, NULL);
 		}
+		for (i=0; i<csv_numcols; i++) {
+			colidxs[i] = i;
+		}
 	}
 
 	if (have_header) {
@@ -79,17 +86,15 @@ M_bool M_table_load_csv(M_table_t *table, const char *data, size_t len, char del
 
 		for (j=0; j<csv_numcols; j++) {
 			if (have_header) {
-				colname = M_csv_get_header(csv, j);
-				M_table_column_idx(table, colname, &colidx);
-				val     = M_csv_get_cellbynum(csv, i, j);
+				val = M_csv_get_cellbynum(csv, i, j);
 			} else {
-				colidx = j;
-				val    = M_csv_raw_cell(csv, i, j);
+				val = M_csv_raw_cell(csv, i, j);
 			}
-			M_table_cell_set_at(table, rowidx, colidx, val);
+			M_table_cell_set_at(table, rowidx, colidxs[j], val);
 		}
 	}
 
+	M_free(colidxs);
 	M_csv_destroy(csv);
 	return M_TRUE;
 }
-- 
2.43.0


From 54888be156cb39891d869f1f7b3559d695a03203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 197/277] fix: empty rows of tables with one column were lost
 when written as CSV

---
 formats/table/m_table_csv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/formats/table/m_table_csv.c b/formats/table/m_table_csv.c
index bb7d1ff..0f663e8 100644
--- a/formats/table/m_table_csv.c
+++ b/formats/table/m_table_csv.c
@@ -120,7 +120,8 @@ char *M_table_write_csv(const M_table_t *table, char delim, char quote, M_bool w
 	if (write_header) {
 		for (i=0; i<numcols; i++) {
 			const_temp = M_table_column_name(table, i);
-			M_buf_add_str_quoted(buf, quote, quote, quoted_chars, M_FALSE, const_temp);
+			/* An only empty cell has to be quoted, blank lines are skipped when reading. */
+			M_buf_add_str_quoted(buf, quote, quote, quoted_chars, (numcols == 1 && M_str_isempty(const_temp))?M_TRUE:M_FALSE, M_str_safe(const_temp));
 			M_buf_add_byte(buf, (unsigned char)delim);
 		}
 		/* Strip off the last delim. */
@@ -131,7 +132,8 @@ char *M_table_write_csv(const M_table_t *table, char delim, char quote, M_bool w
 	for (i=0; i<numrows; i++) {
 		for (j=0; j<numcols; j++) {
 			const_temp = M_table_cell_at(table, i, j);
-			M_buf_add_str_quoted(buf, quote, quote, quoted_chars, M_FALSE, const_temp);
+			/* An only empty cell has to be quoted, blank lines are skipped when reading. */
+			M_buf_add_str_quoted(buf, quote, quote, quoted_chars, (numcols == 1 && M_str_isempty(const_temp))?M_TRUE:M_FALSE, M_str_safe(const_temp));
 			M_buf_add_byte(buf, (unsigned char)delim);
 		}
 		/* Strip off the last delim. */
-- 
2.43.0


From f07ffe3af34ac2a486a3ceeaf526d02cd7acd6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 198/277] fix: deeply nested JSON documents exhausted the stack

---
 formats/json/m_json_reader.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index 6904611..3a0a07f 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -29,7 +29,11 @@
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
-static M_json_node_t *M_json_read_value(M_parser_t *parser, M_uint32 flags, M_json_error_t *error);
+/*! Nesting is recursed into when reading and also when writing, searching and destroying. Deeper documents
+ * are refused because they'd exhaust the stack. */
+#define M_JSON_MAX_DEPTH 1024
+
+static M_json_node_t *M_json_read_value(M_parser_t *parser, M_uint32 flags, size_t depth, M_json_error_t *error);
 
 /*! Eat comments.
  * Supports C and C++ style / * and / / (no spaces between the two characters) comments.
@@ -123,7 +127,7 @@ static M_bool M_json_eat_ignored(M_parser_t *parser, M_uint32 flags, M_json_erro
 	return M_TRUE;
 }
 
-static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_json_error_t *error)
+static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, size_t depth, M_json_error_t *error)
 {
 	M_json_node_t *key_node;
 	M_json_node_t *val_node;
@@ -158,7 +162,7 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 		}
 
 		/* Read the key part of the pair. */
-		key_node = M_json_read_value(parser, flags, error);
+		key_node = M_json_read_value(parser, flags, depth + 1, error);
 		if (key_node == NULL) {
 			M_json_node_destroy(node);
 			return NULL;
@@ -190,7 +194,7 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 		M_parser_consume(parser, 1);
 
 		/* Read the value part of the pair. */
-		val_node = M_json_read_value(parser, flags, error);
+		val_node = M_json_read_value(parser, flags, depth + 1, error);
 		if (val_node == NULL) {
 			M_json_node_destroy(key_node);
 			M_json_node_destroy(node);
@@ -241,7 +245,7 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 	return node;
 }
 
-static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_json_error_t *error)
+static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, size_t depth, M_json_error_t *error)
 {
 	M_json_node_t *sub_node;
 	M_json_node_t *node    = NULL;
@@ -270,7 +274,7 @@ static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_js
 		}
 
 		/* Read the value from the list*/
-		sub_node = M_json_read_value(parser, flags, error);
+		sub_node = M_json_read_value(parser, flags, depth + 1, error);
 		if (sub_node == NULL) {
 			M_json_node_destroy(node);
 			return NULL;
@@ -550,10 +554,15 @@ static M_json_node_t *M_json_read_number(M_parser_t *parser, M_uint32 flags, M_j
 	return node;
 }
 
-static M_json_node_t *M_json_read_value(M_parser_t *parser, M_uint32 flags, M_json_error_t *error)
+static M_json_node_t *M_json_read_value(M_parser_t *parser, M_uint32 flags, size_t depth, M_json_error_t *error)
 {
 	unsigned char c;
 
+	if (depth > M_JSON_MAX_DEPTH) {
+		*error = M_JSON_ERROR_GENERIC;
+		return NULL;
+	}
+
 	if (!M_json_eat_ignored(parser, flags, error)) {
 		return NULL;
 	}
@@ -562,9 +571,9 @@ static M_json_node_t *M_json_read_value(M_parser_t *parser, M_uint32 flags, M_js
 		c = *M_parser_peek(parser);
 		switch (c) {
 			case '{':
-				return M_json_read_object(parser, flags, error);
+				return M_json_read_object(parser, flags, depth, error);
 			case '[':
-				return M_json_read_array(parser, flags, error);
+				return M_json_read_array(parser, flags, depth, error);
 			case '"':
 				return M_json_read_string(parser, flags, error);
 			case 't':
@@ -648,7 +657,7 @@ M_json_node_t *M_json_read(const char *data, size_t data_len, M_uint32 flags, si
 	}
 
 	parser = M_parser_create_const((const unsigned char *)data, data_len, M_PARSER_FLAG_TRACKLINES);
-	root   = M_json_read_value(parser, flags, error);
+	root   = M_json_read_value(parser, flags, 0, error);
 	if (root == NULL) {
 		M_json_read_format_error_pos(parser, error_line, error_pos);
 		M_json_node_destroy(root);
-- 
2.43.0


From d9f2389d6f4d5f076a9e29a32cc1492464adaa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 199/277] fix: deeply nested XML documents exhausted the stack

---
 formats/xml/m_xml_reader.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/formats/xml/m_xml_reader.c b/formats/xml/m_xml_reader.c
index 9750fd7..da02069 100644
--- a/formats/xml/m_xml_reader.c
+++ b/formats/xml/m_xml_reader.c
@@ -723,12 +723,18 @@ static void M_xml_read_format_error_pos(const char *data, size_t data_len, size_
 	M_parser_destroy(parser);
 }
 
+/*! Nesting is recursed into when writing, searching and destroying. Deeper documents are refused because
+ * they'd exhaust the stack. */
+#define M_XML_MAX_DEPTH 1024
+
 M_xml_node_t *M_xml_read(const char *data, size_t data_len, M_uint32 flags, size_t *processed_len, M_xml_error_t *error, size_t *error_line, size_t *error_pos)
 {
 	M_xml_node_t  *doc;
 	M_xml_node_t  *curr_level;
+	M_xml_node_t  *prev_level;
 	M_xml_error_t  myerror;
 	size_t         myerror_pos;
+	size_t         depth = 0;
 	size_t         i;
 	size_t         retval;
 
@@ -773,11 +779,24 @@ M_xml_node_t *M_xml_read(const char *data, size_t data_len, M_uint32 flags, size
 
 		if (data[i] == '<') {
 			/* Parse <?XXX?>, <!--XXX-->, <XXX>, <XXX/>, </XXX>, <![CDATA[XXX]]> */
-			retval = M_xml_read_tag(&curr_level, data+i, data_len-i, flags, error);
+			prev_level = curr_level;
+			retval     = M_xml_read_tag(&curr_level, data+i, data_len-i, flags, error);
 			if (retval == 0) {
 				*error_pos = i;
 				goto fail;
 			}
+			if (curr_level != prev_level) {
+				if (M_xml_node_parent(curr_level) == prev_level) {
+					depth++;
+				} else {
+					depth--;
+				}
+				if (depth > M_XML_MAX_DEPTH) {
+					*error     = M_XML_ERROR_GENERIC;
+					*error_pos = i;
+					goto fail;
+				}
+			}
 			i += (retval - 1);
 		} else {
 			/* Parse text up to next '<' */
-- 
2.43.0


From 1c3967cbba9180bc52ffc89b6b3b142ccec70631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 200/277] fix: INI data with quotes at line starts was read out
 of bounds when no escape character was set

---
 formats/ini/m_ini_reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/ini/m_ini_reader.c b/formats/ini/m_ini_reader.c
index fb6a315..36f8641 100644
--- a/formats/ini/m_ini_reader.c
+++ b/formats/ini/m_ini_reader.c
@@ -69,7 +69,7 @@ static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, s
 				i++;
 				continue;
 			/* If the escape character preceeds the quote then it's escaped */
-			} else if (quote_char != escape_char && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (quote_char != escape_char && escape_char != 0 && i > 0 && dupstr[i-1] == escape_char) {
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
@@ -108,7 +108,7 @@ static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, s
 				i++;
 				continue;
 			/* If the escape character preceeds the quote then it's escaped */
-			} else if (quote_char != escape_char && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (quote_char != escape_char && escape_char != 0 && i > 0 && dupstr[i-1] == escape_char) {
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
-- 
2.43.0


From 016aa4a53281a6716fe2203ea16add285bb4779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 201/277] fix: renaming an INI key read beyond the end of a
 shorter new name

---
 formats/ini/m_ini.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index 307efc3..b6f9e68 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -360,8 +360,8 @@ M_bool M_ini_kv_rename(M_ini_t *ini, const char *key, const char *new_key)
 	if (ini == NULL || M_str_isempty(key) || M_str_isempty(new_key) ||
 		/* Sections need to be renamed as sections and keys as keys. Cannot rename a key to a section
  		 * or a section to a key. */
-	    (key[M_str_len(key)-1] == '/' && new_key[M_str_len(key)-1] != '/') ||
-	    (key[M_str_len(key)-1] != '/' && new_key[M_str_len(key)-1] == '/') ||
+	    (key[M_str_len(key)-1] == '/' && new_key[M_str_len(new_key)-1] != '/') ||
+	    (key[M_str_len(key)-1] != '/' && new_key[M_str_len(new_key)-1] == '/') ||
 		M_str_eq(key, new_key))
 	{
 		return M_FALSE;
-- 
2.43.0


From 27edf00d974ebbda898ba92366127026d24afa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 202/277] fix: the section name was leaked when reading
 malformed INI data

---
 formats/ini/m_ini_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/ini/m_ini_reader.c b/formats/ini/m_ini_reader.c
index 36f8641..88f2d7d 100644
--- a/formats/ini/m_ini_reader.c
+++ b/formats/ini/m_ini_reader.c
@@ -538,6 +538,7 @@ static M_fs_error_t M_ini_reader_parse_str(M_ini_t **ini, const char *s, const M
 		res            = M_ini_reader_parse_line(&elem, lines[i], info);
 		if (res != M_FS_ERROR_SUCCESS) {
 			*err_line = real_line_cnt;
+			M_free(section_name);
 			M_ini_explode_lines_free(lines, num_lines);
 			M_ini_destroy(*ini);
 			*ini = NULL;
-- 
2.43.0


From 9e6759783100b83e19bfa9c6df5335b4a569dd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 203/277] fix: repeated DST rules of a year in time zone INI
 data were leaked

---
 formats/time/m_mtzfile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/formats/time/m_mtzfile.c b/formats/time/m_mtzfile.c
index 2f3e42e..ce3e466 100644
--- a/formats/time/m_mtzfile.c
+++ b/formats/time/m_mtzfile.c
@@ -140,7 +140,10 @@ static M_time_result_t M_mtzfile_tz_load_tz(M_time_tzs_t *tzs, M_ini_t *ini, con
 				}
 				break;
 			}
-			M_time_tz_rule_add_dst_adjust(rtz, adjust);
+			if (!M_time_tz_rule_add_dst_adjust(rtz, adjust)) {
+				/* There's a rule for that year already. */
+				M_free(adjust);
+			}
 		}
 		M_list_str_destroy(dsts);
 		if (res != M_TIME_RESULT_SUCCESS) {
-- 
2.43.0


From ada8848a5263fcd27b4f80e8cb889e7e5e17f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 204/277] fix: plain addresses after one with a name in a list
 of email addresses were read out of bounds

---
 formats/email/m_email_common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/formats/email/m_email_common.c b/formats/email/m_email_common.c
index 30ba23f..a5f09c6 100644
--- a/formats/email/m_email_common.c
+++ b/formats/email/m_email_common.c
@@ -49,7 +49,8 @@ static M_email_error_t M_email_process_address_list(const char *group_name, char
 	for (i=0; i<num_addresses; i++) {
 		/* Try to split on the start of the email segment if we have the "name <email>" form.
 		 * If we don't have that form (it's just an email) parts[0] will be the input. */
-		parts = M_str_explode_str_quoted('<', addresses[i], '"', '\\', 2, &num_parts);
+		part_idx = 0;
+		parts    = M_str_explode_str_quoted('<', addresses[i], '"', '\\', 2, &num_parts);
 		if (parts == NULL || num_parts == 0)
 			continue;
 
@@ -68,7 +69,7 @@ static M_email_error_t M_email_process_address_list(const char *group_name, char
 			/* If we're not the only thing in the list we
 			 * split on <. We need to remove the closing >. */
 			len  = M_str_len(temp);
-			if (temp[len-1] == '>') {
+			if (len > 0 && temp[len-1] == '>') {
 				temp[len-1] = '\0';
 			}
 			address = M_strdup_trim(temp);
-- 
2.43.0


From eb3b6966cbab46a58633ce6dc4bc83268e5f42fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:22 +0000
Subject: [PATCH 205/277] fix: the name of an empty email group was used after
 it was freed

---
 formats/email/m_email_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/email/m_email_common.c b/formats/email/m_email_common.c
index a5f09c6..90beebc 100644
--- a/formats/email/m_email_common.c
+++ b/formats/email/m_email_common.c
@@ -187,6 +187,7 @@ M_email_error_t M_email_process_address(const char *val, M_email_error_t (*addre
 			if (group_name != NULL) {
 				res = address_func(group_name, NULL, NULL, thunk);
 				M_free(group_name);
+				group_name = NULL;
 				if (res != M_EMAIL_ERROR_SUCCESS) {
 					goto done;
 				}
-- 
2.43.0


From 652ffcde9724b464056daf54c6e4966c289da268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 206/277] fix: only every other of several whitespace
 characters was ignored in INI names

---
 formats/ini/m_ini.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index b6f9e68..5883f84 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -42,6 +42,7 @@ char *M_ini_delete_whitespace(char *s)
 	size_t  len;
 	size_t  i;
 	size_t  j;
+	size_t  out = 0;
 
 	if (s == NULL || *s == '\0') {
 		return s;
@@ -52,12 +53,14 @@ char *M_ini_delete_whitespace(char *s)
 		/* Check if we've encountered a whitespace character. */
 		for (j=0; M_ini_whitespace_chars[j] != 0; j++) {
 			if (s[i] == M_ini_whitespace_chars[j]) {
-				M_mem_move(s+i, s+i+1, len-i);
 				break;
 			}
 		}
+		if (M_ini_whitespace_chars[j] == 0) {
+			s[out++] = s[i];
+		}
 	}
-	s[i] = '\0';
+	s[out] = '\0';
 	return s;
 }
 
-- 
2.43.0


From afed86f4191453136d58ce65ebeb00be13c1bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 207/277] fix: inserting an INI section that exists leaked its
 key

---
 formats/ini/m_ini.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index 5883f84..bebf516 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -611,6 +611,7 @@ M_bool M_ini_section_insert(M_ini_t *ini, const char *name)
 
 	/* Already exists so we don't need to add anything */
 	if (M_hash_strvp_get(ini->sections, int_key, NULL)) {
+		M_free(int_full_key);
 		M_free(int_key);
 		return M_TRUE;
 	}
-- 
2.43.0


From 92b7d818a4dc4e3e3b65bb1fb3ae9d021be920b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 208/277] fix: the boundary was leaked when an email has more
 than one Content-Type header

---
 formats/email/m_email_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/email/m_email_reader.c b/formats/email/m_email_reader.c
index f2f45f0..620452b 100644
--- a/formats/email/m_email_reader.c
+++ b/formats/email/m_email_reader.c
@@ -242,6 +242,7 @@ static M_email_error_t M_email_header_process_content_type(M_email_reader_t *ema
 		return M_EMAIL_ERROR_SUCCESS;
 
 	emailr->data_format = M_EMAIL_DATA_FORMAT_MULTIPART;
+	M_free(emailr->boundary);
 	emailr->boundary = M_email_header_process_content_type_boundary(val, &emailr->boundary_len);
 
 	if (emailr->boundary == NULL)
-- 
2.43.0


From f819d72407cc18d177f5730ba844a5cfeb2c8af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 209/277] fix: an INI section with a name of whitespace only
 was leaked

---
 formats/ini/m_ini.c        | 7 +++++++
 formats/ini/m_ini_reader.c | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index bebf516..4292b89 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -607,6 +607,13 @@ M_bool M_ini_section_insert(M_ini_t *ini, const char *name)
 
 	/* Ensure we have a '/' at the end of the name to denote this is a section. */
 	int_key      = M_ini_internal_key(M_strdup(name), ini->ignore_whitespace);
+
+	/* Nothing but whitespace isn't a name. */
+	if (M_str_isempty(int_key)) {
+		M_free(int_key);
+		return M_FALSE;
+	}
+
 	int_full_key = M_ini_internal_key(M_ini_full_key(name, NULL), ini->ignore_whitespace);
 
 	/* Already exists so we don't need to add anything */
diff --git a/formats/ini/m_ini_reader.c b/formats/ini/m_ini_reader.c
index 88f2d7d..faae515 100644
--- a/formats/ini/m_ini_reader.c
+++ b/formats/ini/m_ini_reader.c
@@ -398,7 +398,7 @@ static M_bool M_ini_reader_parse_str_handle_section(const char *section_name, co
 	name = M_ini_element_section_get_name(elem);
 
 	/* Don't add the section if it already exists. */
-	if (M_ini_section_get(ini, name, NULL)) {
+	if (M_ini_section_get(ini, section_name, NULL)) {
 		M_ini_element_destroy(elem);
 	} else {
 		M_ini_section_insert(ini, name);
-- 
2.43.0


From 91d647ed7251bb276881505e1e796e96dcb3d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 210/277] fix: the seconds of a time in Posix TZ strings
 overflowed an int

---
 base/time/m_time_tz_posix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/time/m_time_tz_posix.c b/base/time/m_time_tz_posix.c
index 637ece8..3c645bc 100644
--- a/base/time/m_time_tz_posix.c
+++ b/base/time/m_time_tz_posix.c
@@ -197,6 +197,11 @@ static M_bool M_time_tz_posix_parse_time(M_parser_t *parser, int *hour, int *min
 			M_parser_destroy(tparser);
 			return M_FALSE;
 		}
+		if (val < -32768 || val > 32767) {
+			M_parser_split_free(parts, num_parts);
+			M_parser_destroy(tparser);
+			return M_FALSE;
+		}
 		*(vals[i]) = (int)val;
 	}
 
-- 
2.43.0


From 267b97222ada8dc2580766370da5337a1799fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:45 +0000
Subject: [PATCH 211/277] fix: wildcard patterns with several stars took
 exponential time

---
 base/data/m_str_patmatch.c | 114 ++++++++++++++++++++++++-------------
 1 file changed, 75 insertions(+), 39 deletions(-)

diff --git a/base/data/m_str_patmatch.c b/base/data/m_str_patmatch.c
index cb72f19..a14e4d7 100644
--- a/base/data/m_str_patmatch.c
+++ b/base/data/m_str_patmatch.c
@@ -66,29 +66,17 @@ static const char *pattern_range_close(const char *pat)
 	return NULL;
 }
 
-/* Match pattern (pat) starting at pat_start to string (str) starting at str_start */
-static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start, size_t str_start, M_bool casecmp)
+/* Match the single character element of the pattern (pat) starting at pat_start, which is not a '*', to the
+ * character of the string (str) at str_start. On a match pat_next is the start of the next element. */
+static M_bool pattern_matches_one(const char *pat, const char *s, size_t pat_len, size_t str_len, size_t pat_start, size_t str_start, M_bool casecmp, size_t *pat_next)
 {
 	char        c;
 	char        c2;
 	char        c3;
 	size_t      i;
-	size_t      pat_len;
-	size_t      str_len;
 	const char *rb       = NULL;
 	M_bool      not_pat  = M_FALSE;
 
-	if (pat == NULL || s == NULL)
-		return M_FALSE;
-
-	pat_len = M_str_len(pat);
-	str_len = M_str_len(s);
-
-	/* If done with both pattern and string, then it's a match, but
-	 * if pattern is done, but string is not, fail */
-	if (pat_start == pat_len)
-		return (str_len == str_start) ? M_TRUE : M_FALSE;
-
 	c = pat[pat_start];
 	switch (c) {
 		case '\\':
@@ -99,8 +87,10 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 			if (c2 == '[' || c2 == ']' || c2 == '?' || c2 == '*' || c2 == '\\') {
 				if (str_len == str_start)
 					return M_FALSE; /* String used up */
-				if (s[str_start] == c2)
-					return pattern_matches(pat, s, pat_start+2, str_start+1, casecmp);
+				if (s[str_start] == c2) {
+					*pat_next = pat_start+2;
+					return M_TRUE;
+				}
 			} else {
 				return M_FALSE; /* Error */
 			}
@@ -127,7 +117,8 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 							if (s[str_start] == c3) {
 								if (not_pat)
 									return M_FALSE;
-								return pattern_matches(pat, s, (size_t)(rb-pat)+1, str_start+1, casecmp);
+								*pat_next = (size_t)(rb-pat)+1;
+								return M_TRUE;
 							}
 							i++; /* The escaped character stands for itself only */
 						} else {
@@ -139,7 +130,8 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 							if (s[str_start] == '-') { /* First char or last in brackets */
 								if (not_pat)
 									return M_FALSE;
-								return pattern_matches(pat, s, (size_t)(rb-pat)+1, str_start+1, casecmp);
+								*pat_next = (size_t)(rb-pat)+1;
+								return M_TRUE;
 							}
 						} else {
 							/* Check Range */
@@ -148,7 +140,8 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 							    (casecmp && pat[i-1] <= M_chr_toupper(s[str_start]) && M_chr_toupper(s[str_start]) <= pat[i+1])) {
 								if (not_pat)
 									return M_FALSE;
-								return pattern_matches(pat, s, (size_t)(rb-pat)+1, str_start+1, casecmp);
+								*pat_next = (size_t)(rb-pat)+1;
+								return M_TRUE;
 							}
 						}
 					break;
@@ -157,7 +150,8 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 							if (s[str_start] == c2) {
 								if (not_pat)
 									return M_FALSE;
-								return pattern_matches(pat, s, (size_t)(rb-pat)+1, str_start+1, casecmp);
+								*pat_next = (size_t)(rb-pat)+1;
+								return M_TRUE;
 							}
 						} else {
 							return M_FALSE;
@@ -167,14 +161,17 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 						if ((casecmp && M_chr_tolower(s[str_start]) == M_chr_tolower(c2)) || (!casecmp && s[str_start] == c2)) {
 							if (not_pat)
 								return M_FALSE;
-							return pattern_matches(pat, s, (size_t)(rb-pat)+1, str_start+1, casecmp);
+							*pat_next = (size_t)(rb-pat)+1;
+							return M_TRUE;
 						}
 					break;
 				}
 			}
 			/* Nothing matched */
-			if (not_pat)
-				return pattern_matches(pat, s, (size_t)(rb-pat)+1, str_start+1, casecmp);
+			if (not_pat) {
+				*pat_next = (size_t)(rb-pat)+1;
+				return M_TRUE;
+			}
 			return M_FALSE;
 		break;
 		case ']':
@@ -184,24 +181,15 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 			if (str_len == str_start)
 				return M_FALSE; /* String used up */
 			/* ? always matches 1 char */
-			return pattern_matches(pat, s, pat_start+1, str_start+1, casecmp);
-		break;
-		case '*':
-			if (pat_start == pat_len-1) /* * matches anything */
-				return M_TRUE;
-			for (i=str_start; i<=str_len; i++) {
-				/* Cycle through characters until we get a full pattern match */
-				if (pattern_matches(pat, s, pat_start+1, i, casecmp))
-					return M_TRUE;
-			}
-			/* No pattern match */
-			return M_FALSE;
+			*pat_next = pat_start+1;
+			return M_TRUE;
 		break;
 		default:
 			if (str_len == str_start) {
 				return M_FALSE; /* String used up */
 			} else if ((casecmp && M_chr_tolower(s[str_start]) == M_chr_tolower(c)) || (!casecmp && s[str_start] == c)) {
-				return pattern_matches(pat, s, pat_start+1, str_start+1, casecmp);
+				*pat_next = pat_start+1;
+				return M_TRUE;
 			} else {
 				return M_FALSE;
 			}
@@ -210,6 +198,54 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 	return M_FALSE;
 }
 
+/* Match pattern (pat) to string (str). Every element other than '*' matches exactly one character, so on a
+ * mismatch it's enough to let the last '*' match one more. */
+static M_bool pattern_matches(const char *pat, const char *s, M_bool casecmp)
+{
+	size_t pat_len;
+	size_t str_len;
+	size_t pat_pos  = 0;
+	size_t str_pos  = 0;
+	size_t star_pat = 0;
+	size_t star_str = 0;
+	M_bool has_star = M_FALSE;
+
+	if (pat == NULL || s == NULL)
+		return M_FALSE;
+
+	pat_len = M_str_len(pat);
+	str_len = M_str_len(s);
+
+	while (1) {
+		if (pat_pos < pat_len && pat[pat_pos] == '*') {
+			pat_pos++;
+			if (pat_pos == pat_len) /* * matches anything */
+				return M_TRUE;
+			has_star = M_TRUE;
+			star_pat = pat_pos;
+			star_str = str_pos;
+			continue;
+		}
+
+		if (pat_pos == pat_len) {
+			/* If done with both pattern and string, then it's a match, but
+			 * if pattern is done, but string is not, fail */
+			if (str_pos == str_len)
+				return M_TRUE;
+		} else if (pattern_matches_one(pat, s, pat_len, str_len, pat_pos, str_pos, casecmp, &pat_pos)) {
+			str_pos++;
+			continue;
+		}
+
+		/* No pattern match */
+		if (!has_star || star_str == str_len)
+			return M_FALSE;
+		star_str++;
+		pat_pos = star_pat;
+		str_pos = star_str;
+	}
+}
+
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
 /* Match pattern against string as per  'man 7 glob' though we
@@ -217,10 +253,10 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
  * (e.g. [:lower:]), collating symbols, or equivalence class expressions */
 M_bool M_str_pattern_match(const char *pattern, const char *s)
 {
-	return pattern_matches(pattern, s, 0, 0, M_FALSE);
+	return pattern_matches(pattern, s, M_FALSE);
 }
 
 M_API M_bool M_str_case_pattern_match(const char *pattern, const char *s)
 {
-	return pattern_matches(pattern, s, 0, 0, M_TRUE);
+	return pattern_matches(pattern, s, M_TRUE);
 }
-- 
2.43.0


From f757489d4fa883aca151a5c0f1120c36902a26e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 212/277] fix: unquoting at most 0 characters read and wrote in
 front of the string

---
 base/data/m_str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index 7feeb30..4998393 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -1552,7 +1552,7 @@ char *M_str_unquote_max(char *s, unsigned char quote, unsigned char escape, size
 		return s;
 
 	len = M_str_len_max(s, max);
-	if (len == 1)
+	if (len < 2)
 		return s;
 
 	/* String must start and end with a quote to be considered quoted. */
-- 
2.43.0


From ed66b8e659fea195ab7494aa5477ec95770b21b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 213/277] fix: reading amounts too large for 64 bits overflowed
 a signed integer

---
 base/data/m_str_num.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index ef572d9..e8467bc 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -207,11 +207,15 @@ M_int64 M_atofi_prec(const char *s, int impliedDecimals)
 		 * places we want to handle.  Use this for rounding purposes
 		 * then break out! */
 		if (afterdec > impliedDecimals) {
-			if (s[i] >= '5')
+			if (s[i] >= '5' && value < M_INT64_MAX)
 				value++;
 			break;
 		}
 
+		/* Too large for the type */
+		if (value > (M_INT64_MAX - (s[i] - '0')) / 10)
+			return isneg ? M_INT64_MIN : M_INT64_MAX;
+
 		value *= 10;
 		value += s[i] - '0';
 	}
@@ -221,8 +225,11 @@ M_int64 M_atofi_prec(const char *s, int impliedDecimals)
 		afterdec = 0;
 
 	/* Do implied decimal calculation */
-	for (i=afterdec; i<impliedDecimals; i++)
+	for (i=afterdec; i<impliedDecimals; i++) {
+		if (value > M_INT64_MAX / 10)
+			return isneg ? M_INT64_MIN : M_INT64_MAX;
 		value *= 10;
+	}
 
 	if (isneg)
 		value *= -1;
-- 
2.43.0


From 3dc518f1b92014d129a7b1d767a09712c66b6969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 214/277] fix: counts in damaged time zone files exhausted the
 memory

---
 base/time/m_time_tz_olson.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/base/time/m_time_tz_olson.c b/base/time/m_time_tz_olson.c
index 7869ef1..e2ae2d2 100644
--- a/base/time/m_time_tz_olson.c
+++ b/base/time/m_time_tz_olson.c
@@ -138,6 +138,7 @@ static M_int64 M_time_tz_olson_parse_tzfile_read_long(M_fs_file_t *fd, M_bool is
 
 /*! Read a single bye from a tzfile.
  * \param fd The file we're reading.
+ * \param size The size of the file.
  * \return The value read.
  */
 static unsigned char M_time_tz_olson_parse_tzfile_read_byte(M_fs_file_t *fd)
@@ -158,6 +159,7 @@ static unsigned char M_time_tz_olson_parse_tzfile_read_byte(M_fs_file_t *fd)
 
 /*! Check that a given file starts with the tzfile identifying header.
  * \param fd The file we're reading.
+ * \param size The size of the file.
  * \return True if the header is correct. Otherwise false.
  */
 static M_bool M_time_tz_olson_parse_tzfile_check_header(M_fs_file_t *fd)
@@ -187,12 +189,13 @@ static M_bool M_time_tz_olson_parse_tzfile_check_header(M_fs_file_t *fd)
 
 /*! Parse an olson tzfile into our olson tz object.
  * \param fd The file we're reading.
+ * \param size The size of the file.
  * \param tz The olson tz object we will return.
  * \param skip_first Whether we can skip the first header if possible.
  * \param timet64 Should we read M_time_t values from the file as 64 values?
  * \return True if the file was successfully parsed and the tz was created. Otherwise false.
  */
-static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **tz, M_bool skip_first, M_bool timet64)
+static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_uint64 size, M_time_tz_olson_t **tz, M_bool skip_first, M_bool timet64)
 {
 	M_time_t                     *transition_times;
 	unsigned char                *info_idxs;
@@ -206,6 +209,7 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 	M_uint32                      timecnt;
 	M_uint32                      typecnt;
 	M_uint32                      charcnt;
+	M_uint64                      data_len;
 	size_t                        info_idx;
 	size_t                        abbr_idx;
 	size_t                        i;
@@ -238,12 +242,17 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 	if (typecnt == 0 || (ttisstcnt != 0 && ttisstcnt != typecnt) || (ttisgmtcnt != 0 && ttisgmtcnt != typecnt))
 		return M_FALSE;
 
+	/* There can't be more data than there is in the file. */
+	data_len = (M_uint64)ttisgmtcnt + ttisstcnt + ((M_uint64)leapcnt*(timet64?12:8)) + ((M_uint64)timecnt*(timet64?9:5)) + ((M_uint64)typecnt*6) + charcnt;
+	if (data_len > size)
+		return M_FALSE;
+
 	/* Check if we have a version 2 (or later) file which has 64 bit data. */
 	if (skip_first && ver >= '2') {
 		/* The 64 bit data is a second complete version of the file after the 32 bit version. We skip past the
  		 * first set of data and start reading again at the location where the 64 bit data starts. */
-		M_fs_file_seek(fd, ttisgmtcnt+ttisstcnt+(leapcnt*8)+(timecnt*5)+(typecnt*6)+charcnt, M_FS_FILE_SEEK_CUR);
-		return M_time_tz_olson_parse_tzfile(fd, tz, M_FALSE, M_TRUE);
+		M_fs_file_seek(fd, (M_int64)data_len, M_FS_FILE_SEEK_CUR);
+		return M_time_tz_olson_parse_tzfile(fd, size, tz, M_FALSE, M_TRUE);
 	}
 
 	/* Create some places to store our data as we parse. */
@@ -346,6 +355,8 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 static M_bool M_time_tz_olson_parse_tzfile_path(const char *path, M_time_tz_olson_t **tz)
 {
 	M_fs_file_t  *fd;
+	M_fs_info_t  *info = NULL;
+	M_uint64      size;
 	M_fs_error_t  res;
 
 	if (path == NULL || *path == '\0' || tz == NULL) {
@@ -358,7 +369,14 @@ static M_bool M_time_tz_olson_parse_tzfile_path(const char *path, M_time_tz_olso
 		return M_FALSE;
 	}
 
-	if (!M_time_tz_olson_parse_tzfile(fd, tz, M_TRUE, M_FALSE)) {
+	if (M_fs_info_file(&info, fd, M_FS_PATH_INFO_FLAGS_BASIC) != M_FS_ERROR_SUCCESS) {
+		M_fs_file_close(fd);
+		return M_FALSE;
+	}
+	size = M_fs_info_get_size(info);
+	M_fs_info_destroy(info);
+
+	if (!M_time_tz_olson_parse_tzfile(fd, size, tz, M_TRUE, M_FALSE)) {
 		M_fs_file_close(fd);
 		return M_FALSE;
 	}
-- 
2.43.0


From 209e60041d8d737b7eff87275d2c11adfa398188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 215/277] fix: large week offsets overflowed an int

---
 base/time/m_time_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 94d4de7..c4c0bf0 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -108,7 +108,7 @@ static int M_time_parseoffset(const char *timestr, const M_time_tz_t *tz, M_time
 	else if (M_str_caseeq_max(ptr, "month", 5))
 		result.month += offset;
 	else if (M_str_caseeq_max(ptr, "week", 4))
-		result.day += 7*offset;
+		result.day += (M_int64)offset * 7;
 	else if (M_str_caseeq_max(ptr, "day", 3))
 		result.day += offset;
 	else if (M_str_caseeq_max(ptr, "hour", 4))
-- 
2.43.0


From 7a1224b2496b8071c2142a5f8f8a54a1fd68a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 216/277] fix: a quoted INI value ending with an escaped escape
 character swallowed the following lines

---
 formats/ini/m_ini_reader.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/formats/ini/m_ini_reader.c b/formats/ini/m_ini_reader.c
index faae515..e0a7489 100644
--- a/formats/ini/m_ini_reader.c
+++ b/formats/ini/m_ini_reader.c
@@ -39,6 +39,7 @@ static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, s
 	char          **out       = NULL;
 	char           *dupstr    = NULL;
 	M_bool          on_quote;
+	M_bool          on_escape;
 	M_bool          on_comment;
 	unsigned char   delim_char;
 	unsigned char   quote_char;
@@ -60,6 +61,7 @@ static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, s
 
 	/* Count number of delimiters to get number of output sections */
 	on_quote   = M_FALSE;
+	on_escape  = M_FALSE;
 	on_comment = M_FALSE;
 	for (i=0; i<s_len; i++) {
 		/* Only key/values can span multiple lines by quoting. A comment cannot be quoted to span multiple lines. */
@@ -69,7 +71,8 @@ static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, s
 				i++;
 				continue;
 			/* If the escape character preceeds the quote then it's escaped */
-			} else if (quote_char != escape_char && escape_char != 0 && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (quote_char != escape_char && on_escape) {
+				on_escape = M_FALSE;
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
@@ -78,6 +81,8 @@ static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, s
 			}
 			on_comment   = M_FALSE;
 		}
+		/* An escape character which is escaped itself doesn't escape what follows. */
+		on_escape = (escape_char != 0 && dupstr[i] == escape_char && !on_escape)?M_TRUE:M_FALSE;
 		/* We're only in a comment when we encounter a comment char that isn't quoted. */
 		if (comment_char != 0 && dupstr[i] == comment_char && !on_quote) {
 			on_comment = M_TRUE;
@@ -99,6 +104,7 @@ static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, s
 	num_strs   = 0;
 	beginsect  = 0;
 	on_quote   = M_FALSE;
+	on_escape  = M_FALSE;
 	on_comment = M_FALSE;
 	for (i=0; i<s_len; i++) {
 		/* Only key/values can span multiple lines by quoting. A comment cannot be quoted to span multiple lines. */
@@ -108,7 +114,8 @@ static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, s
 				i++;
 				continue;
 			/* If the escape character preceeds the quote then it's escaped */
-			} else if (quote_char != escape_char && escape_char != 0 && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (quote_char != escape_char && on_escape) {
+				on_escape = M_FALSE;
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
@@ -117,6 +124,8 @@ static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, s
 			}
 			on_comment   = M_FALSE;
 		}
+		/* An escape character which is escaped itself doesn't escape what follows. */
+		on_escape = (escape_char != 0 && dupstr[i] == escape_char && !on_escape)?M_TRUE:M_FALSE;
 		/* We're only in a comment when we encounter a comment char that isn't quoted. */
 		if (comment_char != 0 && dupstr[i] == comment_char && !on_quote) {
 			on_comment = M_TRUE;
-- 
2.43.0


From 0f56dafa37a088859f2cfd9c2a06c613fa1de630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 217/277] fix: INI values with a comment character or white
 space at the ends were written without quotes

---
 formats/ini/m_ini_writer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/formats/ini/m_ini_writer.c b/formats/ini/m_ini_writer.c
index f28cd10..ba3abf9 100644
--- a/formats/ini/m_ini_writer.c
+++ b/formats/ini/m_ini_writer.c
@@ -469,6 +469,10 @@ void M_ini_writer_write_element_kv(const M_ini_element_t *elem, const char *key,
 		}
 		if (!M_str_quote_if_necessary(&temp, val, M_ini_settings_get_quote_char(info), M_ini_settings_get_escape_char(info), M_ini_settings_get_element_delim_char(info))) {
 			temp = NULL;
+			/* What starts a comment and white space at the ends is not part of a value which isn't quoted. */
+			if (M_str_chr(val, (char)M_ini_settings_get_comment_char(info)) != NULL || M_chr_isspace(*val) || (*val != '\0' && M_chr_isspace(val[M_str_len(val)-1]))) {
+				temp = M_str_quote(val, M_ini_settings_get_quote_char(info), M_ini_settings_get_escape_char(info));
+			}
 		}
 		M_buf_add_str(buf, temp?temp:val);
 		M_free(temp);
-- 
2.43.0


From b321702bb18ac124fe2a975d19aa94dae02370d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 218/277] fix: M_ini_kv_has_key denied keys without values

---
 formats/ini/m_ini.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index 4292b89..7822fe3 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -206,7 +206,7 @@ M_bool M_ini_kv_has_key(const M_ini_t *ini, const char *key)
 	M_bool  ret;
 
 	int_key = M_ini_internal_key(M_strdup(key), ini->ignore_whitespace);
-	ret     = M_ini_kv_get(ini, int_key, 0, NULL);
+	ret     = M_ini_kvs_has_key(ini->kvs, int_key);
 	M_free(int_key);
 
 	return ret;
-- 
2.43.0


From c040df8497d91b162287ca58a5424bf44e2c6286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 219/277] fix: M_settings_groups gave the sub groups of all
 groups starting with the name of the group

---
 formats/settings/m_settings.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/formats/settings/m_settings.c b/formats/settings/m_settings.c
index 72522ab..3b16909 100644
--- a/formats/settings/m_settings.c
+++ b/formats/settings/m_settings.c
@@ -432,15 +432,17 @@ M_list_str_t *M_settings_groups(M_hash_dict_t *dict, const char *group)
 
 	groups = M_list_str_create(M_LIST_STR_SORTASC|M_LIST_STR_SET);
 	len    = M_str_len(group);
+	while (len > 0 && group[len-1] == '/')
+		len--;
 
 	M_hash_dict_enumerate(dict, &dictenum);
 	while (M_hash_dict_enumerate_next(dict, dictenum, &key, NULL)) {
 		/* Get the full group for this key. */
 		M_settings_split_key(key, &s_group, &s_key);
-		if (M_str_isempty(group) || M_str_eq_max(group, s_group, len))
+		if (len == 0 || (M_str_eq_max(group, s_group, len) && M_str_len(s_group) >= len && (s_group[len] == '/' || s_group[len] == '\0')))
 		{
 			/* If we have a group remove the given group from the key's group. */
-			if (!M_str_isempty(group) && !M_str_isempty(s_group)) {
+			if (len > 0) {
 				slen = M_str_len(s_group);
 				M_mem_move(s_group, s_group+len, slen-len);
 				s_group[slen-len] = '\0';
-- 
2.43.0


From 4450226e4aae6d2e8af8b33259d7757d0a65e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 220/277] fix: reading settings merged keys which differ in
 white space, underscores or dashes only

---
 formats/settings/m_settings_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/settings/m_settings_reader.c b/formats/settings/m_settings_reader.c
index 1c0843f..1be96eb 100644
--- a/formats/settings/m_settings_reader.c
+++ b/formats/settings/m_settings_reader.c
@@ -170,7 +170,7 @@ static M_bool M_settings_read_ini(const M_settings_t *settings, M_hash_dict_t *d
 	M_ini_settings_set_kv_delim_char(info, '=');
 	M_ini_settings_reader_set_dupkvs_handling(info, M_INI_DUPKVS_REMOVE_PREV);
 
-	ini = M_ini_read_file(M_settings_filename(settings), info, M_TRUE, NULL, 0);
+	ini = M_ini_read_file(M_settings_filename(settings), info, M_FALSE, NULL, 0);
 	if (ini == NULL) {
 		M_ini_settings_destroy(info);
 		return M_FALSE;
-- 
2.43.0


From ef5cc23d41f24b654b51f74d9b4ad77877920131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 221/277] fix: settings which can't be written as JSON were
 leaked

---
 formats/settings/m_settings_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/settings/m_settings_writer.c b/formats/settings/m_settings_writer.c
index e4d37f7..aba79c1 100644
--- a/formats/settings/m_settings_writer.c
+++ b/formats/settings/m_settings_writer.c
@@ -362,6 +362,7 @@ static M_bool M_settings_write_json(const M_settings_t *settings, M_hash_dict_t
 	while (M_hash_dict_enumerate_next(dict, dictenum, &key, &val)) {
 		if (!M_settings_write_json_node(json, key, val)) {
 			M_hash_dict_enumerate_free(dictenum);
+			M_json_node_destroy(json);
 			return M_FALSE;
 		}
 	}
-- 
2.43.0


From 4fc208d52e515351b425ce85898ce6ce829f5bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 222/277] fix: settings which were cleared or written empty
 couldn't be read or written

---
 formats/settings/m_settings_reader.c | 17 +++++++++++++++--
 formats/settings/m_settings_writer.c |  4 ++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/formats/settings/m_settings_reader.c b/formats/settings/m_settings_reader.c
index 1be96eb..1e91836 100644
--- a/formats/settings/m_settings_reader.c
+++ b/formats/settings/m_settings_reader.c
@@ -243,6 +243,19 @@ static M_bool M_settings_read_json(const M_settings_t *settings, M_hash_dict_t *
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
 
+/* What M_settings_clear and writing settings without any value leave. */
+static M_bool M_settings_file_is_empty(const M_settings_t *settings)
+{
+	M_fs_info_t *info  = NULL;
+	M_bool       empty = M_FALSE;
+
+	if (M_fs_info(&info, M_settings_filename(settings), M_FS_PATH_INFO_FLAGS_BASIC) == M_FS_ERROR_SUCCESS)
+		empty = (M_fs_info_get_size(info) == 0)?M_TRUE:M_FALSE;
+	M_fs_info_destroy(info);
+
+	return empty;
+}
+
 M_bool M_settings_read(const M_settings_t *settings, M_hash_dict_t **dict)
 {
 	M_bool ret = M_FALSE;
@@ -284,10 +297,10 @@ M_bool M_settings_read(const M_settings_t *settings, M_hash_dict_t **dict)
 			break;
 #endif
 		case M_SETTINGS_TYPE_INI:
-			ret = M_settings_read_ini(settings, *dict);
+			ret = M_settings_file_is_empty(settings) || M_settings_read_ini(settings, *dict);
 			break;
 		case M_SETTINGS_TYPE_JSON:
-			ret = M_settings_read_json(settings, *dict);
+			ret = M_settings_file_is_empty(settings) || M_settings_read_json(settings, *dict);
 			break;
 		case M_SETTINGS_TYPE_NATIVE:
 			ret = M_FALSE;
diff --git a/formats/settings/m_settings_writer.c b/formats/settings/m_settings_writer.c
index aba79c1..db9e671 100644
--- a/formats/settings/m_settings_writer.c
+++ b/formats/settings/m_settings_writer.c
@@ -271,6 +271,10 @@ static M_bool M_settings_write_ini(const M_settings_t *settings, M_hash_dict_t *
 	const char         *val;
 	M_bool              ret = M_TRUE;
 
+	/* There is nothing to write. */
+	if (M_hash_dict_num_keys(dict) == 0)
+		return M_settings_clear_file(settings);
+
 	ini  = M_ini_create(M_FALSE);
 	info = M_ini_settings_create();
 	M_ini_settings_set_element_delim_char(info, '\n');
-- 
2.43.0


From 275a1a8ce70340be0ba54ca934e72fa3fdc056a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:31 +0000
Subject: [PATCH 223/277] fix: renaming an INI key into a new section lost the
 section

---
 formats/ini/m_ini.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index 7822fe3..9312a52 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -358,6 +358,8 @@ M_bool M_ini_kv_rename(M_ini_t *ini, const char *key, const char *new_key)
 	char   *int_key;
 	char   *int_new_key;
 	char   *stored_key;
+	char   *new_sect;
+	char   *int_new_sect;
 	M_bool  ret;
 
 	if (ini == NULL || M_str_isempty(key) || M_str_isempty(new_key) ||
@@ -392,9 +394,17 @@ M_bool M_ini_kv_rename(M_ini_t *ini, const char *key, const char *new_key)
 		M_hash_dict_insert(ini->key_lookup, int_new_key, new_key);
 	} else {
 		/* Kv are a little different because we have to pull the key out of the full new_key. */
-		M_ini_split_key(new_key, NULL, &stored_key);
+		M_ini_split_key(new_key, &new_sect, &stored_key);
 		M_hash_dict_insert(ini->key_lookup, int_new_key, stored_key);
 		M_free(stored_key);
+
+		/* The key can move to a section that isn't known yet. */
+		int_new_sect = M_ini_internal_key(M_ini_full_key(new_sect, NULL), ini->ignore_whitespace);
+		if (!M_str_isempty(new_sect) && !M_hash_dict_get(ini->key_lookup, int_new_sect, NULL)) {
+			M_hash_dict_insert(ini->key_lookup, int_new_sect, new_sect);
+		}
+		M_free(int_new_sect);
+		M_free(new_sect);
 	}
 	/* If only the pretty name is changing then we only need to update the lookup. */
 	if (M_str_caseeq(int_key, int_new_key)) {
-- 
2.43.0


From b85e5a49243063b112b24fdcc6c46f479fa4870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:41 +0000
Subject: [PATCH 224/277] fix: INI keys with multi line values which were
 turned into comments became keys again

---
 formats/ini/m_ini_writer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/formats/ini/m_ini_writer.c b/formats/ini/m_ini_writer.c
index ba3abf9..c5b84e3 100644
--- a/formats/ini/m_ini_writer.c
+++ b/formats/ini/m_ini_writer.c
@@ -314,7 +314,13 @@ static void M_ini_writer_write_element_comment(const M_ini_element_t *elem, cons
 	if (M_ini_settings_get_padding(info) & M_INI_PADDING_AFTER_COMMENT_CHAR && (const_temp != NULL && !M_chr_isspace(*const_temp)))
 		M_buf_add_byte(buf, ' ');
 
-	M_buf_add_str(buf, const_temp);
+	for (; const_temp != NULL && *const_temp != '\0'; const_temp++) {
+		M_buf_add_byte(buf, (unsigned char)*const_temp);
+		/* A quoted value of a key that was turned into a comment can span lines. */
+		if ((unsigned char)*const_temp == M_ini_settings_get_element_delim_char(info)) {
+			M_buf_add_byte(buf, M_ini_settings_get_comment_char(info));
+		}
+	}
 	M_ini_writer_write_line_ending(info, buf);
 }
 
-- 
2.43.0


From 0d81b070c826cff747fd5d00080c9a4681d45fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:41 +0000
Subject: [PATCH 225/277] fix: all values of new INI keys were written where
 one has to be used

---
 formats/ini/m_ini_writer.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/formats/ini/m_ini_writer.c b/formats/ini/m_ini_writer.c
index c5b84e3..58c89a0 100644
--- a/formats/ini/m_ini_writer.c
+++ b/formats/ini/m_ini_writer.c
@@ -285,12 +285,35 @@ static void M_ini_writer_tree_add_kv(M_ini_t *ini, M_ini_kvs_t *kvs)
 	M_ini_kvs_enumerate_free(kvsenum);
 }
 
+/* Leave only the value to write when multiple values are not supported. */
+static void M_ini_writer_reduce_vals(M_ini_kvs_t *kvs, M_ini_multivals_t multi_flag)
+{
+	M_list_str_t *keys;
+	const char   *key;
+	size_t        len;
+	size_t        i;
+
+	if (multi_flag != M_INI_MULTIVALS_USE_LAST && multi_flag != M_INI_MULTIVALS_USE_FIRST)
+		return;
+
+	keys = M_ini_kvs_keys(kvs);
+	len  = M_list_str_len(keys);
+	for (i=0; i<len; i++) {
+		key = M_list_str_at(keys, i);
+		while (M_ini_kvs_val_len(kvs, key) > 1) {
+			M_ini_kvs_val_remove_at(kvs, key, multi_flag == M_INI_MULTIVALS_USE_LAST ? 0 : 1);
+		}
+	}
+	M_list_str_destroy(keys);
+}
+
 static void M_ini_writer_update_tree(M_ini_t *ini, const M_ini_settings_t *info)
 {
 	M_ini_kvs_t *kvs;
 
 	/* duplicate the kvs because we're going to modify it to track what needs to be updated. */
 	kvs = M_ini_kvs_duplicate(ini->kvs);
+	M_ini_writer_reduce_vals(kvs, M_ini_settings_writer_get_multivals_handling(info));
 
  	/* 1. Update the tree with kvs values and remove the kv from the kvs. */
 	M_ini_writer_tree_update_kv_vals(ini, kvs, info);
-- 
2.43.0


From ad4d91fa9f8cbc9a78f46333b3d77b411b3dddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 226/277] fix: a suspended log module never resumed when its
 queue overflowed meanwhile

A command taken together with a message was lost when the notice about
dropped messages was not accepted.
---
 log/m_async_writer.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index c4e7ae8..81aa2e5 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -234,6 +234,10 @@ static void *write_thread(void *arg)
 			M_snprintf(tmp, sizeof(tmp), "%llu messages were dropped (%s)%s", num_dropped,
 				(msg == NULL && cmd == 0)? "log shutdown" : "buffer full", writer->line_end);
 			msg_consumed = writer->write_cb(tmp, 0, writer->write_thunk);
+			if (msg_consumed) {
+				/* They've been reported, don't report them again if the message itself has to go back on the queue. */
+				num_dropped = 0;
+			}
 		}
 
 		/* NULL message and 0 command indicates that message queue wants us to stop processing. */
@@ -245,10 +249,12 @@ static void *write_thread(void *arg)
 		 * to call the writer in that case too.
 		 *
 		 * If we already tried sending a drop message and it wasn't accepted, don't bother trying to send
-		 * a message again.
+		 * a message again. A command still has to be delivered though, it's no longer pending in the writer.
 		 */
-		if (msg_consumed) {
-			msg_consumed = writer->write_cb(msg, cmd, writer->write_thunk);
+		if (msg_consumed || cmd != 0) {
+			M_bool cb_consumed = writer->write_cb(msg_consumed? msg : NULL, cmd, writer->write_thunk);
+
+			msg_consumed = (msg_consumed && cb_consumed)? M_TRUE : M_FALSE;
 			/* If a command was set, signal that it's done (in case anyone is blocking on it). */
 			if (cmd != 0) {
 				M_thread_mutex_lock(writer->lock);
-- 
2.43.0


From 67fcd0e74ba5566b249b2b3e4525db5d0369b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 227/277] fix: M_async_writer_set_command_block returned when
 an earlier command was done

---
 log/m_async_writer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index 81aa2e5..20e600c 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -258,8 +258,11 @@ static void *write_thread(void *arg)
 			/* If a command was set, signal that it's done (in case anyone is blocking on it). */
 			if (cmd != 0) {
 				M_thread_mutex_lock(writer->lock);
-				writer->command_done = M_TRUE;
-				M_thread_cond_broadcast(writer->cond_done);
+				/* If more commands came in while this one was executing, whoever is blocking waits for those. */
+				if (writer->write_command == 0) {
+					writer->command_done = M_TRUE;
+					M_thread_cond_broadcast(writer->cond_done);
+				}
 				M_thread_mutex_unlock(writer->lock);
 			}
 		}
-- 
2.43.0


From 650e5f85d2c087f1f0582c172a3454b61e0df148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 228/277] fix: M_async_writer_start kept the writer locked when
 no thread could be created

---
 log/m_async_writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index 20e600c..7255a5c 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -466,6 +466,8 @@ M_bool M_async_writer_start(M_async_writer_t *writer)
 
 	/* Start write thread. */
 	if (M_thread_create(NULL, write_thread, writer) == 0) {
+		writer->thread_done = M_TRUE;
+		M_thread_mutex_unlock(writer->lock);
 		return M_FALSE;
 	}
 
-- 
2.43.0


From d851600620aab79537d851f7d7421f410a87a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 229/277] fix: replacing the filter of a log module leaked the
 thunk of the old one

---
 log/m_log_common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/log/m_log_common.c b/log/m_log_common.c
index 14926ba..071f760 100644
--- a/log/m_log_common.c
+++ b/log/m_log_common.c
@@ -176,6 +176,10 @@ M_log_error_t M_log_module_set_filter(M_log_t *log, M_log_module_t *module, M_lo
 		return M_LOG_MODULE_NOT_FOUND;
 	}
 
+	if (module->destroy_filter_thunk_cb != NULL && module->filter_thunk != NULL) {
+		module->destroy_filter_thunk_cb(module->filter_thunk);
+	}
+
 	module->filter_cb               = filter_cb;
 	module->filter_thunk            = filter_thunk;
 	module->destroy_filter_thunk_cb = thunk_destroy_cb;
-- 
2.43.0


From 33cb9263315f1eb09d1840a72157a04265ba92fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 230/277] fix: removing the name of a log tag read freed
 memory, renaming it kept the old width

---
 log/m_log.c | 41 ++++++++++++++---------------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/log/m_log.c b/log/m_log.c
index 345b746..ad8b9c0 100644
--- a/log/m_log.c
+++ b/log/m_log.c
@@ -402,8 +402,10 @@ M_log_error_t M_log_set_time_format(M_log_t *log, const char *fmt)
 
 M_log_error_t M_log_set_tag_name(M_log_t *log, M_uint64 tag, const char *name)
 {
-	const char *old_name  = NULL;
-	M_uint64    other_tag;
+	const char           *old_name  = NULL;
+	const char           *iter_name = NULL;
+	M_hash_u64str_enum_t *hashenum  = NULL;
+	M_uint64              other_tag;
 
 	if (log == NULL) {
 		return M_LOG_INVALID_PARAMS;
@@ -436,37 +438,22 @@ M_log_error_t M_log_set_tag_name(M_log_t *log, M_uint64 tag, const char *name)
 	if (M_str_isempty(name)) {
 		/* If name is empty, remove the tag-to-name mapping, too. */
 		M_hash_u64str_remove(log->tag_to_name, tag);
-
-		/* If removing the old name may reduce the max_name_width, need to recalculate it. */
-		if (M_str_len(old_name) >= log->max_name_width) {
-			size_t                new_max;
-			const char           *iter_name;
-			M_hash_u64str_enum_t *hashenum;
-			M_hash_u64str_enumerate(log->tag_to_name, &hashenum);
-
-			new_max = 0;
-			while (M_hash_u64str_enumerate_next(log->tag_to_name, hashenum, NULL, &iter_name)) {
-				size_t name_len = M_str_len(iter_name);
-				if (name_len > new_max) {
-					new_max = name_len;
-				}
-			}
-			log->max_name_width = new_max;
-
-			M_hash_u64str_enumerate_free(hashenum);
-		}
 	} else {
-		size_t name_len;
-
 		/* Otherwise, add new tag-to-name and name-to-tag mappings. */
 		M_hash_u64str_insert(log->tag_to_name, tag, name);
 		M_hash_multi_str_insert_uint(log->name_to_tag, name, tag);
+	}
 
-		/* Update variable that keeps track of longest name we've seen so far. */
-		name_len = M_str_len(name);
-		if (name_len > log->max_name_width) {
-			log->max_name_width = name_len;
+	/* Removing or replacing a name may reduce the width as well as extend it, so recalculate it. */
+	log->max_name_width = 0;
+	if (M_hash_u64str_enumerate(log->tag_to_name, &hashenum) > 0) {
+		while (M_hash_u64str_enumerate_next(log->tag_to_name, hashenum, NULL, &iter_name)) {
+			size_t name_len = M_str_len(iter_name);
+			if (name_len > log->max_name_width) {
+				log->max_name_width = name_len;
+			}
 		}
+		M_hash_u64str_enumerate_free(hashenum);
 	}
 
 	M_thread_rwlock_unlock(log->rwlock);
-- 
2.43.0


From 8a26f4bb729e9b1d39a491f19ed759ca605a0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 231/277] fix: log functions for one type of module read
 modules which were already removed

---
 log/m_log_file.c       | 11 ++++++-----
 log/m_log_membuf.c     | 10 ++++++++--
 log/m_log_syslog.c     | 11 ++++++-----
 log/m_log_tcp_syslog.c | 33 ++++++++++++++++++---------------
 4 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/log/m_log_file.c b/log/m_log_file.c
index 7301157..f0b064b 100644
--- a/log/m_log_file.c
+++ b/log/m_log_file.c
@@ -709,14 +709,10 @@ M_log_error_t M_log_module_file_rotate(M_log_t *log, M_log_module_t *module)
 {
 	M_async_writer_t *writer;
 
-	if (log == NULL || module == NULL || module->module_thunk == NULL) {
+	if (log == NULL || module == NULL) {
 		return M_LOG_INVALID_PARAMS;
 	}
 
-	if (module->type != M_LOG_MODULE_FILE) {
-		return M_LOG_WRONG_MODULE;
-	}
-
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_READ);
 
 	if (!module_present_locked(log, module)) {
@@ -724,6 +720,11 @@ M_log_error_t M_log_module_file_rotate(M_log_t *log, M_log_module_t *module)
 		return M_LOG_MODULE_NOT_FOUND;
 	}
 
+	if (module->type != M_LOG_MODULE_FILE) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_WRONG_MODULE;
+	}
+
 	writer = module->module_thunk;
 	M_async_writer_set_command(writer, M_LOG_CMD_FILE_ROTATE, M_TRUE);
 
diff --git a/log/m_log_membuf.c b/log/m_log_membuf.c
index a35f0b6..3384aa0 100644
--- a/log/m_log_membuf.c
+++ b/log/m_log_membuf.c
@@ -176,12 +176,18 @@ M_log_error_t M_log_module_take_membuf(M_log_t *log, M_log_module_t *module, M_b
 		return M_LOG_INVALID_PARAMS;
 	}
 
+	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
+
+	if (!module_present_locked(log, module)) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_MODULE_NOT_FOUND;
+	}
+
 	if (module->type != M_LOG_MODULE_MEMBUF) {
+		M_thread_rwlock_unlock(log->rwlock);
 		return M_LOG_WRONG_MODULE;
 	}
 
-	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
-
 	if (out_buf != NULL) {
 		module_thunk_t *mdata = module->module_thunk;
 		if (mdata != NULL) {
diff --git a/log/m_log_syslog.c b/log/m_log_syslog.c
index aab951a..68066e1 100644
--- a/log/m_log_syslog.c
+++ b/log/m_log_syslog.c
@@ -386,14 +386,10 @@ M_log_error_t M_log_module_syslog_set_tag_priority(M_log_t *log, M_log_module_t
 {
 	module_thunk_t *mdata;
 
-	if (log == NULL || module == NULL || module->module_thunk == NULL || tags == 0) {
+	if (log == NULL || module == NULL || tags == 0) {
 		return M_LOG_INVALID_PARAMS;
 	}
 
-	if (module->type != M_LOG_MODULE_SYSLOG) {
-		return M_LOG_WRONG_MODULE;
-	}
-
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 
 	if (!module_present_locked(log, module)) {
@@ -401,6 +397,11 @@ M_log_error_t M_log_module_syslog_set_tag_priority(M_log_t *log, M_log_module_t
 		return M_LOG_MODULE_NOT_FOUND;
 	}
 
+	if (module->type != M_LOG_MODULE_SYSLOG) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_WRONG_MODULE;
+	}
+
 	mdata = module->module_thunk;
 
 	while (tags != 0) {
diff --git a/log/m_log_tcp_syslog.c b/log/m_log_tcp_syslog.c
index c11d371..b04ec61 100644
--- a/log/m_log_tcp_syslog.c
+++ b/log/m_log_tcp_syslog.c
@@ -646,14 +646,10 @@ M_log_error_t M_log_module_tcp_syslog_set_connect_timeout_ms(M_log_t *log, M_log
 {
 	module_thunk_t *mdata;
 
-	if (log == NULL || module == NULL || module->module_thunk == NULL) {
+	if (log == NULL || module == NULL) {
 		return M_LOG_INVALID_PARAMS;
 	}
 
-	if (module->type != M_LOG_MODULE_TSYSLOG) {
-		return M_LOG_WRONG_MODULE;
-	}
-
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 
 	if (!module_present_locked(log, module)) {
@@ -661,6 +657,11 @@ M_log_error_t M_log_module_tcp_syslog_set_connect_timeout_ms(M_log_t *log, M_log
 		return M_LOG_MODULE_NOT_FOUND;
 	}
 
+	if (module->type != M_LOG_MODULE_TSYSLOG) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_WRONG_MODULE;
+	}
+
 	mdata = module->module_thunk;
 
 	if (!M_io_net_set_connect_timeout_ms(mdata->io, timeout_ms)) {
@@ -680,14 +681,10 @@ M_log_error_t M_log_module_tcp_syslog_set_keepalives(M_log_t *log, M_log_module_
 {
 	module_thunk_t *mdata;
 
-	if (log == NULL || module == NULL || module->module_thunk == NULL) {
+	if (log == NULL || module == NULL) {
 		return M_LOG_INVALID_PARAMS;
 	}
 
-	if (module->type != M_LOG_MODULE_TSYSLOG) {
-		return M_LOG_WRONG_MODULE;
-	}
-
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 
 	if (!module_present_locked(log, module)) {
@@ -695,6 +692,11 @@ M_log_error_t M_log_module_tcp_syslog_set_keepalives(M_log_t *log, M_log_module_
 		return M_LOG_MODULE_NOT_FOUND;
 	}
 
+	if (module->type != M_LOG_MODULE_TSYSLOG) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_WRONG_MODULE;
+	}
+
 	mdata = module->module_thunk;
 
 	if (!M_io_net_set_keepalives(mdata->io, idle_time_s, retry_time_s, retry_count)) {
@@ -715,14 +717,10 @@ M_log_error_t M_log_module_tcp_syslog_set_tag_priority(M_log_t *log, M_log_modul
 {
 	module_thunk_t *mdata;
 
-	if (log == NULL || module == NULL || module->module_thunk == NULL || tags == 0) {
+	if (log == NULL || module == NULL || tags == 0) {
 		return M_LOG_INVALID_PARAMS;
 	}
 
-	if (module->type != M_LOG_MODULE_TSYSLOG) {
-		return M_LOG_WRONG_MODULE;
-	}
-
 	M_thread_rwlock_lock(log->rwlock, M_THREAD_RWLOCK_TYPE_WRITE);
 
 	if (!module_present_locked(log, module)) {
@@ -730,6 +728,11 @@ M_log_error_t M_log_module_tcp_syslog_set_tag_priority(M_log_t *log, M_log_modul
 		return M_LOG_MODULE_NOT_FOUND;
 	}
 
+	if (module->type != M_LOG_MODULE_TSYSLOG) {
+		M_thread_rwlock_unlock(log->rwlock);
+		return M_LOG_WRONG_MODULE;
+	}
+
 	mdata = module->module_thunk;
 
 	while (tags != 0) {
-- 
2.43.0


From 69d6adf2fbd74a7594025d80b86fb2ae07a4f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 232/277] fix: messages not accepted by the TCP syslog module
 leaked

---
 log/m_log_tcp_syslog.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/log/m_log_tcp_syslog.c b/log/m_log_tcp_syslog.c
index b04ec61..81d80d2 100644
--- a/log/m_log_tcp_syslog.c
+++ b/log/m_log_tcp_syslog.c
@@ -382,6 +382,7 @@ static void log_write_cb(M_log_module_t *mod, const char *msg, M_uint64 tag)
 	 * new messages to the queue.
 	 */
 	if (mdata->flush_flag) {
+		M_buf_cancel(buf);
 		M_thread_mutex_unlock(mdata->msg_lock);
 		return;
 	}
@@ -391,6 +392,7 @@ static void log_write_cb(M_log_module_t *mod, const char *msg, M_uint64 tag)
 		if (mdata->num_dropped < M_UINT64_MAX) {
 			mdata->num_dropped++;
 		}
+		M_buf_cancel(buf);
 		M_thread_mutex_unlock(mdata->msg_lock);
 		return;
 	}
-- 
2.43.0


From 6fd23dd7f570e0f62aab76a278a47e6bbbd06266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 233/277] fix: the connect timeout of the TCP syslog module
 became 1000 times longer on reconnect

---
 log/m_log_tcp_syslog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/m_log_tcp_syslog.c b/log/m_log_tcp_syslog.c
index 81d80d2..8819121 100644
--- a/log/m_log_tcp_syslog.c
+++ b/log/m_log_tcp_syslog.c
@@ -137,7 +137,7 @@ static M_io_error_t module_thunk_reconnect(module_thunk_t *mdata)
 	ret = M_io_net_client_create(&mdata->io, mdata->dns, mdata->dest_host, mdata->port, M_IO_NET_ANY);
 
 	if (ret == M_IO_ERROR_SUCCESS) {
-		M_io_net_set_connect_timeout_ms(mdata->io, mdata->connect_timeout_ms * 1000);
+		M_io_net_set_connect_timeout_ms(mdata->io, mdata->connect_timeout_ms);
 		M_io_net_set_keepalives(mdata->io, mdata->keepalive_idle_time_s, mdata->keepalive_retry_time_s,
 			mdata->keepalive_retry_count);
 	}
-- 
2.43.0


From 628c1418e7ebbad51ce8e2d8b06ee4b0177bc27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 234/277] fix: adding a log file which can't be opened leaked
 its settings

---
 log/m_log_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/log/m_log_file.c b/log/m_log_file.c
index f0b064b..93ae0cd 100644
--- a/log/m_log_file.c
+++ b/log/m_log_file.c
@@ -670,6 +670,7 @@ M_log_error_t M_log_module_add_file(M_log_t *log, const char *log_file_path, siz
 
 	if (open_head_logfile(writer_thunk, M_FALSE) != M_FS_ERROR_SUCCESS) {
 		/* This early open allows most I/O errors to be caught before logging starts. */
+		writer_thunk_destroy(writer_thunk);
 		return M_LOG_UNREACHABLE;
 	}
 
-- 
2.43.0


From a066e59c7f815517e28f96445e432ea5bd85cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 235/277] fix: notices about dropped messages went to syslog
 with a garbage priority

---
 log/m_log_syslog.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/log/m_log_syslog.c b/log/m_log_syslog.c
index 68066e1..57cc61c 100644
--- a/log/m_log_syslog.c
+++ b/log/m_log_syslog.c
@@ -132,9 +132,13 @@ static M_bool writer_write_cb(char *msg, M_uint64 cmd, void *thunk)
 		return M_TRUE;
 	}
 
-	/* Parse priority byte off of end of message. */
-	priority         = (int)(char_to_priority(msg[msg_len - 1]));
-	msg[msg_len - 1] = '\0';
+	/* Parse priority byte off of end of message (notices about dropped messages don't have one). */
+	if (msg[msg_len - 1] >= priority_to_char(M_SYSLOG_EMERG) && msg[msg_len - 1] <= priority_to_char(M_SYSLOG_DEBUG)) {
+		priority         = (int)(char_to_priority(msg[msg_len - 1]));
+		msg[msg_len - 1] = '\0';
+	} else {
+		priority = (int)M_SYSLOG_DEFAULT_PRI;
+	}
 
 	/* Send message to syslog. */
 	syslog(priority | (int)wdata->facility, "%s", msg);
-- 
2.43.0


From ed6fc8bd80f8d5c3c99693d6c9b8706958f428be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:35 +0000
Subject: [PATCH 236/277] fix: a log message which had to go back on an empty
 queue was lost

---
 log/m_async_writer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index 7255a5c..a7b7d8a 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -191,7 +191,11 @@ static void replace_one(M_async_writer_t *writer, char *msg, M_uint64 num_droppe
 		/* If no newer messages have been dropped in the time since we tried to write the old message,
 		 * and if we have room to add the old message back onto the tail end of the buffer:
 		 */
-		M_llist_str_insert_after(M_llist_str_last(writer->msgs), msg);
+		if (M_llist_str_len(writer->msgs) == 0) {
+			M_llist_str_insert(writer->msgs, msg);
+		} else {
+			M_llist_str_insert_after(M_llist_str_last(writer->msgs), msg);
+		}
 		writer->stored_bytes += msg_len;
 	} else {
 		/* If newer messages have been dropped, or if the old message won't fit in the queue,
-- 
2.43.0


From 54d04cf4e9f8b9f437f348d5ed69b200bc351e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:11 +0000
Subject: [PATCH 237/277] fix: M_popen_close killed the process instead of
 waiting for it

Archive commands of rotated log files were killed, and the next rotation
overwrote the log which had not been archived.
---
 thread/m_popen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/m_popen.c b/thread/m_popen.c
index dfce127..7c26aeb 100644
--- a/thread/m_popen.c
+++ b/thread/m_popen.c
@@ -464,7 +464,7 @@ int M_popen_close_ex(M_popen_handle_t *mp, char **stdout_buf, size_t *stdout_buf
 
 int M_popen_close(M_popen_handle_t *mp, M_popen_err_t *errorid)
 {
-	return M_popen_close_ex(mp, NULL, NULL, NULL, NULL, errorid, 0);
+	return M_popen_close_ex(mp, NULL, NULL, NULL, NULL, errorid, M_TIMEOUT_INF);
 }
 
 #ifdef _WIN32
-- 
2.43.0


From a1f16e1ddad0690bec8fd64b6ab6bdf10f114ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:11 +0000
Subject: [PATCH 238/277] fix: log rotation renamed the archives before the
 last one was complete

---
 log/m_log_file.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/log/m_log_file.c b/log/m_log_file.c
index 93ae0cd..24dca93 100644
--- a/log/m_log_file.c
+++ b/log/m_log_file.c
@@ -260,6 +260,12 @@ static void writer_thunk_rotate_log_files(writer_thunk_t *wdata)
 		return;
 	}
 
+	/* Wait for archive command from previous rotate to finish, if it hasn't already. The file it creates is one of
+	 * those that have to be renamed.
+	 */
+	M_popen_close(wdata->archive_process, NULL);
+	wdata->archive_process = NULL;
+
 	new_path       = M_buf_create();
 
 	existing_files = writer_thunk_get_log_file_names(wdata);
@@ -311,10 +317,6 @@ skip:
 		node = M_llist_str_node_next(node);
 	}
 
-	/* Wait for archive command from previous rotate to finish, if it hasn't already. */
-	M_popen_close(wdata->archive_process, NULL);
-	wdata->archive_process = NULL;
-
 	/* Close the head log file, rename it to log #1. */
 	M_fs_file_close(wdata->fstream);
 	wdata->fstream = NULL;
-- 
2.43.0


From a764f5fceacb78e23dd63edf5c1beb333f35e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:11 +0000
Subject: [PATCH 239/277] fix: rotating a log file with brackets in its name
 overwrote the only archive

---
 log/m_log_file.c | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/log/m_log_file.c b/log/m_log_file.c
index 24dca93..8173acb 100644
--- a/log/m_log_file.c
+++ b/log/m_log_file.c
@@ -41,7 +41,6 @@
 typedef struct {
 	char             *log_file_path;
 	char             *log_file_name;
-	char             *log_file_pattern; /* Globbing pattern for old log files (doesn't include directory part). */
 	char             *log_file_dir;
 	M_time_t          log_file_create_time; /* File creation time (seconds) */
 	M_uint64          log_file_size;
@@ -64,7 +63,6 @@ static void writer_thunk_destroy(void *ptr)
 
 	M_free(wdata->log_file_path);
 	M_free(wdata->log_file_name);
-	M_free(wdata->log_file_pattern);
 	M_free(wdata->log_file_dir);
 	M_fs_file_close(wdata->fstream);
 	M_free(wdata->archive_cmd);
@@ -183,13 +181,10 @@ static M_llist_str_t *writer_thunk_get_log_file_names(writer_thunk_t *wdata)
 		return NULL;
 	}
 
-	/* Glob files in dir to get a first cut at the list of files we need:
-	 *    <log file name>.*[<archive_file_ext>]
-	 *
-	 * Note that this glob pattern will still include some files that don't match the exact pattern we're looking for,
-	 * so we'll need to filter it further.
+	/* List all files in dir, then filter out those not of this log. The name of the log can't be part of a globbing
+	 * pattern, because it may contain characters which have a special meaning there.
 	 */
-	glob_files = M_fs_dir_walk_strs(wdata->log_file_dir, wdata->log_file_pattern, M_FS_DIR_WALK_FILTER_FILE);
+	glob_files = M_fs_dir_walk_strs(wdata->log_file_dir, "*", M_FS_DIR_WALK_FILTER_FILE);
 
 	if (M_list_str_len(glob_files) == 0) {
 		M_list_str_destroy(glob_files);
@@ -213,7 +208,9 @@ static M_llist_str_t *writer_thunk_get_log_file_names(writer_thunk_t *wdata)
 		parser = M_parser_create_const((const unsigned char *)name, M_str_len(name), M_PARSER_FLAG_NONE);
 
 		/* Skip past log file name and dot. */
-		if (!M_parser_consume(parser, min_len)) {
+		if (!M_str_eq_max(name, wdata->log_file_name, min_len - 1) || M_str_len(name) <= min_len || name[min_len - 1] != '.'
+			|| !M_parser_consume(parser, min_len))
+		{
 			M_parser_destroy(parser);
 			continue;
 		}
@@ -361,7 +358,6 @@ static writer_thunk_t *writer_thunk_create(const char *log_file_path, M_uint64 n
 	M_uint64 autorotate_time, const char *archive_cmd, const char *archive_file_ext, const char *line_end_str)
 {
 	writer_thunk_t *wdata         = M_malloc_zero(sizeof(*wdata));
-	M_buf_t        *buf           = NULL;
 	M_fs_error_t    err;
 
 	/* Normalize the path - subs in environment variable values, converts to absolute, resolves '~', etc. */
@@ -372,18 +368,8 @@ static writer_thunk_t *writer_thunk_create(const char *log_file_path, M_uint64 n
 		return NULL;
 	}
 
-	/* Construct globbing pattern for extra log files. */
-	wdata->log_file_name = M_fs_path_basename(wdata->log_file_path, M_FS_SYSTEM_AUTO);
-	buf = M_buf_create();
-	M_buf_add_str(buf, wdata->log_file_name);
-	M_buf_add_str(buf, ".*");
-	if (!M_str_isempty(archive_file_ext)) {
-		M_buf_add_str(buf, archive_file_ext);
-	}
-	wdata->log_file_pattern = M_strdup(M_buf_peek(buf));
-	M_buf_cancel(buf);
-
 	/* Set other parameters. */
+	wdata->log_file_name    = M_fs_path_basename(wdata->log_file_path, M_FS_SYSTEM_AUTO);
 	wdata->log_file_dir     = M_fs_path_dirname(wdata->log_file_path, M_FS_SYSTEM_AUTO);
 	wdata->num_to_keep      = num_to_keep;
 	wdata->autorotate_size  = autorotate_size;
-- 
2.43.0


From 79206837080a4fa3aabaa6cca057b066c64a21ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:00 +0000
Subject: [PATCH 240/277] fix: regular expressions for configuration values
 were case sensitive

Documented as matching in a case-insensitive fashion.
---
 formats/conf/m_conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/conf/m_conf.c b/formats/conf/m_conf.c
index be44ca4..456c767 100644
--- a/formats/conf/m_conf.c
+++ b/formats/conf/m_conf.c
@@ -290,7 +290,7 @@ static M_bool reg_validate_value_str(M_conf_t *conf, M_conf_reg_t *reg, const ch
 		ret = M_TRUE;
 		M_buf_add_str(debugbuf, ": Skipping regular expression check");
 	} else {
-		regex = M_re_compile(reg->regex, M_RE_NONE);
+		regex = M_re_compile(reg->regex, M_RE_CASECMP);
 		if (regex == NULL) {
 			M_snprintf(err_buf, err_len, "Invalid regex");
 		} else {
-- 
2.43.0


From a7a0572073d6a8bbfdab4b3333601dbcd601e428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:00 +0000
Subject: [PATCH 241/277] fix: configuration values beyond 64 bits were
 accepted as the largest integer

---
 formats/conf/m_conf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/formats/conf/m_conf.c b/formats/conf/m_conf.c
index 456c767..64c0e99 100644
--- a/formats/conf/m_conf.c
+++ b/formats/conf/m_conf.c
@@ -360,7 +360,10 @@ static M_bool reg_validate_value_int(M_conf_t *conf, M_conf_reg_t *reg, const ch
 			return M_FALSE;
 	}
 
-	num = M_str_to_int64(value);
+	if (M_str_to_int64_ex(value, M_str_len(value), 10, &num, NULL) != M_STR_INT_SUCCESS) {
+		M_snprintf(err_buf, err_len, "Value outside of allowed bounds");
+		return M_FALSE;
+	}
 
 	if (
 		(min_allowed > min_possible && num < min_allowed) ||
@@ -433,7 +436,10 @@ static M_bool reg_validate_value_uint(M_conf_t *conf, M_conf_reg_t *reg, const c
 			return M_FALSE;
 	}
 
-	num = M_str_to_uint64(value);
+	if (M_str_to_uint64_ex(value, M_str_len(value), 10, &num, NULL) != M_STR_INT_SUCCESS) {
+		M_snprintf(err_buf, err_len, "Value outside of allowed bounds");
+		return M_FALSE;
+	}
 
 	if (
 		(min_allowed > min_possible && num < min_allowed) ||
-- 
2.43.0


From 9264d91844e2812f60ab5f77e90c540fb3914e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 242/277] fix: M_sql_stmt_result_int16 reports values below the
 16 bit range

Only values above it were refused, others were silently cut.
---
 sql/m_sql_stmt_result.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/m_sql_stmt_result.c b/sql/m_sql_stmt_result.c
index 7407616..4ecc398 100644
--- a/sql/m_sql_stmt_result.c
+++ b/sql/m_sql_stmt_result.c
@@ -237,7 +237,7 @@ M_sql_error_t M_sql_stmt_result_int16(M_sql_stmt_t *stmt, size_t row, size_t col
 	if (err != M_SQL_ERROR_SUCCESS)
 		return err;
 
-	if (i32 > M_INT16_MAX)
+	if (i32 > M_INT16_MAX || i32 < M_INT16_MIN)
 		return M_SQL_ERROR_INVALID_TYPE;
 
 	*val = (M_int16)i32;
-- 
2.43.0


From ea3a71df84a67435ced99e80fcf5e73776e3b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 243/277] fix: M_sql_stmt_bind_binary_dup keeps zero-length
 data apart from NULL

Duplicating zero bytes gives a NULL pointer, which the drivers bind as NULL.
---
 sql/m_sql_stmt_bind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/m_sql_stmt_bind.c b/sql/m_sql_stmt_bind.c
index ff47113..f69e378 100644
--- a/sql/m_sql_stmt_bind.c
+++ b/sql/m_sql_stmt_bind.c
@@ -292,7 +292,7 @@ M_sql_error_t M_sql_stmt_bind_binary_dup(M_sql_stmt_t *stmt, const M_uint8 *bin,
 		col->isnull        = M_TRUE;
 	} else {
 		col->v.binary.is_const = M_FALSE;
-		col->v.binary.data     = M_memdup(bin, bin_len);
+		col->v.binary.data     = M_memdup_max(bin, bin_len, 1); /* Zero-length data is not NULL */
 		col->v.binary.len      = bin_len;
 	}
 
-- 
2.43.0


From fd56ff728b9210d8f7bb606e629e75fa95d0c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:52 +0000
Subject: [PATCH 244/277] fix: M_sql_trans_commit does not access the
 connection after releasing it

---
 sql/m_sql_trans.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sql/m_sql_trans.c b/sql/m_sql_trans.c
index d45c64e..977dd4c 100644
--- a/sql/m_sql_trans.c
+++ b/sql/m_sql_trans.c
@@ -166,10 +166,11 @@ M_sql_error_t M_sql_trans_commit(M_sql_trans_t *trans, char *error, size_t error
 
 	/* Prevent attempting a commit if we must roll back, issue a rollback instead */
 	if (M_sql_conn_get_state(trans->conn) != M_SQL_CONN_STATE_OK) {
-		M_sql_conn_t *conn = trans->conn;
+		/* The rollback releases the connection, it may not be accessed afterward */
+		M_sql_conn_state_t state = M_sql_conn_get_state(trans->conn);
 		M_snprintf(error, error_size, "forced rollback");
 		M_sql_trans_rollback(trans);
-		if (M_sql_conn_get_state(conn) == M_SQL_CONN_STATE_FAILED) {
+		if (state == M_SQL_CONN_STATE_FAILED) {
 			err = M_SQL_ERROR_CONN_FAILED;
 		} else {
 			err = M_SQL_ERROR_QUERY_DEADLOCK;
-- 
2.43.0


From 293abacc66d984d601100bf7b3d07c7f970dde50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:52 +0000
Subject: [PATCH 245/277] fix: a group insert reports a failed begin or commit
 to all of its participants

---
 sql/m_sql_stmt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/m_sql_stmt.c b/sql/m_sql_stmt.c
index d3de723..39db828 100644
--- a/sql/m_sql_stmt.c
+++ b/sql/m_sql_stmt.c
@@ -536,6 +536,7 @@ done:
 
 		/* Signal threads to read the result */
 		M_thread_mutex_lock(stmt->group_lock);
+		stmt->last_error  = err; /* A failure to begin or commit isn't recorded otherwise */
 		stmt->group_state = M_SQL_GROUPINSERT_FINISHED;
 		M_thread_cond_broadcast(stmt->group_cond);
 		M_thread_mutex_unlock(stmt->group_lock);
-- 
2.43.0


From c8a537fc6c9cc952385fb0fb45be5460e55087f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:52 +0000
Subject: [PATCH 246/277] fix: group insert row count is not read while others
 may add rows

---
 sql/m_sql_stmt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/m_sql_stmt.c b/sql/m_sql_stmt.c
index 39db828..8184c26 100644
--- a/sql/m_sql_stmt.c
+++ b/sql/m_sql_stmt.c
@@ -446,7 +446,7 @@ M_sql_error_t M_sql_stmt_execute(M_sql_connpool_t *pool, M_sql_stmt_t *stmt)
 		stmt->bind_row_offset = 0;
 
 		/* Either begin transaction or acquire connection */
-		if (M_sql_driver_stmt_bind_rows(stmt) > 1 || stmt->group_lock) {
+		if (stmt->group_lock || M_sql_driver_stmt_bind_rows(stmt) > 1) {
 			err = M_sql_trans_begin(&trans, pool, M_SQL_ISOLATION_READCOMMITTED, stmt->error_msg, sizeof(stmt->error_msg));
 			if (M_sql_error_is_error(err)) {
 				if (M_sql_error_is_rollback(err)) {
-- 
2.43.0


From 0afdd8392c7b7bf523ab96fa582f7ce534cfd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 247/277] fix: sqlite driver resets failed statements so an
 idle connection holds no locks

---
 sql/sqlite/mstdlib_sql_sqlite.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sql/sqlite/mstdlib_sql_sqlite.c b/sql/sqlite/mstdlib_sql_sqlite.c
index c552fa5..365a2b2 100644
--- a/sql/sqlite/mstdlib_sql_sqlite.c
+++ b/sql/sqlite/mstdlib_sql_sqlite.c
@@ -861,6 +861,11 @@ static M_sql_error_t sqlite_cb_execute(M_sql_conn_t *conn, M_sql_stmt_t *stmt, s
 		retry_cnt++;
 	}
 
+	/* A failed statement remains active, and may hold on to its locks, until it is reset */
+	if (M_sql_error_is_error(err)) {
+		sqlite3_reset(driver_stmt->stmt);
+	}
+
 	return err;
 }
 
@@ -953,6 +958,11 @@ static M_sql_error_t sqlite_cb_fetch(M_sql_conn_t *conn, M_sql_stmt_t *stmt, cha
 		retry_cnt++;
 	}
 
+	/* A failed statement remains active, and may hold on to its locks, until it is reset */
+	if (M_sql_error_is_error(err)) {
+		sqlite3_reset(driver_stmt->stmt);
+	}
+
 	return err;
 }
 
-- 
2.43.0


From 1d1ce2f74925717fe8c32b86eacfd7e7e32691ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 248/277] fix: an event timer that can not be scheduled is
 stopped instead of firing endlessly

---
 io/m_event_timer.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index ea8c773..f0d3530 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -299,9 +299,9 @@ M_bool M_event_timer_start(M_event_timer_t *timer, M_uint64 interval_ms)
 	timer->cnt         = 0;
 	M_mem_set(&timer->next_run, 0, sizeof(timer->next_run));
 	rv = M_event_timer_schedule(timer);
+	timer->started = rv;
 	if (rv) {
 //M_printf("%s(): timer %p started for %llu ms\n", __FUNCTION__, timer, interval_ms); fflush(stdout);
-		timer->started = M_TRUE;
 		if (!timer->executing) { /* Recursion! */
 			M_event_timer_enqueue(timer);
 			M_event_wake(timer->event);
@@ -577,6 +577,11 @@ void M_event_timer_process(M_event_t *event)
 			timer->started = M_FALSE;
 		}
 
+		/* A timer that can no longer be scheduled (e.g. no interval) is stopped, otherwise it would be due forever */
+		if (timer->started && !timer->delay_destroy && !M_event_timer_schedule(timer)) {
+			timer->started = M_FALSE;
+		}
+
 		/* If autodestroy and timer went to stopped mode, kill it */
 		if (!timer->started && timer->autodestroy) {
 			M_free(timer);
@@ -593,10 +598,6 @@ void M_event_timer_process(M_event_t *event)
 		 * tasks ready to run immediately, thus starving them */
 		M_time_elapsed_start(&timer->last_run);
 
-		/* Reschedule */
-		if (timer->started)
-			M_event_timer_schedule(timer);
-
 		/* re-enqueue */
 		M_event_timer_enqueue(timer);
 
-- 
2.43.0


From 66b6f5686002f02c8bff917f4de177ba6f5e9a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 249/277] fix: an event timer restarted by its own callback
 keeps the schedule it was started with

---
 io/m_event_timer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index f0d3530..31333d2 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -48,6 +48,7 @@ struct M_event_timer {
 	size_t               cnt;
 	M_timeval_t          next_run;     /* Next run, based on M_time_elapse_start() */
 	M_timeval_t          last_run;     /* Last run time, to prevent starvation of other tasks */
+	M_bool               restarted;    /* Started (again) from within its own callback, so it is scheduled already */
 	M_bool               executing;    /* If we are currently executing this timer's callback -- make sure we don't really destroy ourselves */
 };
 
@@ -299,7 +300,8 @@ M_bool M_event_timer_start(M_event_timer_t *timer, M_uint64 interval_ms)
 	timer->cnt         = 0;
 	M_mem_set(&timer->next_run, 0, sizeof(timer->next_run));
 	rv = M_event_timer_schedule(timer);
-	timer->started = rv;
+	timer->started   = rv;
+	timer->restarted = timer->executing;
 	if (rv) {
 //M_printf("%s(): timer %p started for %llu ms\n", __FUNCTION__, timer, interval_ms); fflush(stdout);
 		if (!timer->executing) { /* Recursion! */
@@ -546,6 +548,7 @@ void M_event_timer_process(M_event_t *event)
 		if (timer->started) {
 			timer->cnt++;
 			timer->executing = M_TRUE;
+			timer->restarted = M_FALSE;
 
 			/* Unlock event lock since the callback may take some time */
 			M_event_unlock(event);
@@ -578,7 +581,7 @@ void M_event_timer_process(M_event_t *event)
 		}
 
 		/* A timer that can no longer be scheduled (e.g. no interval) is stopped, otherwise it would be due forever */
-		if (timer->started && !timer->delay_destroy && !M_event_timer_schedule(timer)) {
+		if (timer->started && !timer->restarted && !timer->delay_destroy && !M_event_timer_schedule(timer)) {
 			timer->started = M_FALSE;
 		}
 
-- 
2.43.0


From f826517243d09c71194c19625d7ecf2419285db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:44 +0000
Subject: [PATCH 250/277] fix: removal of a timer by another thread looks up
 the timer with the event loop locked

---
 io/m_event_timer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index 31333d2..60b83d5 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -197,15 +197,19 @@ M_bool M_event_timer_remove(M_event_timer_t *timer)
 static void M_event_timer_remove_cb(M_event_t *event, M_event_type_t type, M_io_t *io, void *cb_arg)
 {
 	M_event_timer_t *timer = cb_arg;
-	(void)event;
 	(void)type;
 	(void)io;
 
+	M_event_lock(event);
+
 	/* Destroyed out from under us */
-	if (!M_queue_exists(event->u.loop.timers, timer))
+	if (!M_queue_exists(event->u.loop.timers, timer)) {
+		M_event_unlock(event);
 		return;
+	}
 
 	M_event_timer_remove(timer);
+	M_event_unlock(event);
 }
 
 
-- 
2.43.0


From 1f0b486aad25d10a1cb32abba16d8e0ff0ee7094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:23 +0000
Subject: [PATCH 251/277] fix: a TLS connection whose handshake failed or
 wasn't verified exchanges no application data

Reading in the error event of a rejected certificate returned the peer's
decrypted data, and writing sent data to the rejected peer.
---
 tls/m_tls.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/tls/m_tls.c b/tls/m_tls.c
index f79076a..164d363 100644
--- a/tls/m_tls.c
+++ b/tls/m_tls.c
@@ -72,6 +72,7 @@ struct M_io_handle {
 	M_tls_state_t      state;
 	M_tls_stateflags_t state_flags;
 	M_bool             is_client;
+	M_bool             established; /* Handshake completed and the peer verified */
 	M_event_timer_t   *timer;
 	M_io_error_t       last_io_err;
 	M_timeval_t        negotiation_start;
@@ -455,6 +456,7 @@ static M_bool M_io_tls_process_state_connecting(M_io_layer_t *layer, M_event_typ
 				}
 //M_printf("SSL_connect() successful\n");
 				handle->state            = M_TLS_STATE_CONNECTED;
+				handle->established      = M_TRUE;
 				*type                    = M_EVENT_TYPE_CONNECTED;
 				M_event_timer_remove(handle->timer);
 				handle->timer            = NULL;
@@ -516,6 +518,7 @@ static M_bool M_io_tls_process_state_accepting(M_io_layer_t *layer, M_event_type
 			if (rv == 1) {
 //M_printf("SSL_accept(%p) successful\n", M_io_layer_get_io(layer));
 				handle->state = M_TLS_STATE_CONNECTED;
+				handle->established = M_TRUE;
 				*type         = M_EVENT_TYPE_CONNECTED;
 /* XXX: Verify peer */
 				M_event_timer_remove(handle->timer);
@@ -941,6 +944,22 @@ static M_bool M_io_tls_init_cb(M_io_layer_t *layer)
 }
 
 
+static M_io_error_t M_io_tls_notestablished_error(const M_io_handle_t *handle)
+{
+	switch (handle->state) {
+		case M_TLS_STATE_INIT:
+		case M_TLS_STATE_CONNECTING:
+		case M_TLS_STATE_ACCEPTING:
+			return M_IO_ERROR_WOULDBLOCK;
+		case M_TLS_STATE_DISCONNECTED:
+			return M_IO_ERROR_DISCONNECT;
+		default:
+			break;
+	}
+	return M_IO_ERROR_NOTCONNECTED;
+}
+
+
 static M_io_error_t M_io_tls_read_cb(M_io_layer_t *layer, unsigned char *buf, size_t *read_len, M_io_meta_t *meta)
 {
 	M_io_handle_t *handle     = M_io_layer_get_handle(layer);
@@ -954,6 +973,12 @@ static M_io_error_t M_io_tls_read_cb(M_io_layer_t *layer, unsigned char *buf, si
 	if (layer == NULL || handle == NULL || handle->ssl == NULL)
 		return M_IO_ERROR_INVALID;
 
+	/* Never hand out data of a peer that wasn't verified (yet) */
+	if (!handle->established) {
+		*read_len = 0;
+		return M_io_tls_notestablished_error(handle);
+	}
+
 	/* Clear READ_WANT_WRITE flag */
 	handle->state_flags &= (M_tls_stateflags_t)~(M_TLS_STATEFLAG_READ_WANT_WRITE);
 
@@ -1022,6 +1047,12 @@ static M_io_error_t M_io_tls_write_cb(M_io_layer_t *layer, const unsigned char *
 	if (layer == NULL || handle == NULL || handle->ssl == NULL)
 		return M_IO_ERROR_INVALID;
 
+	/* Never send data to a peer that wasn't verified (yet) */
+	if (!handle->established) {
+		*write_len = 0;
+		return M_io_tls_notestablished_error(handle);
+	}
+
 	/* Clear WRITE_WANT_READ flag */
 	handle->state_flags &= (M_tls_stateflags_t)~(M_TLS_STATEFLAG_WRITE_WANT_READ);
 
@@ -1205,6 +1236,7 @@ static M_bool M_io_tls_reset_cb(M_io_layer_t *layer)
 	handle->timer            = NULL;
 	handle->state            = M_TLS_STATE_INIT;
 	handle->state_flags      = 0;
+	handle->established      = M_FALSE;
 	handle->last_io_err      = M_IO_ERROR_SUCCESS;
 	M_mem_set(&handle->negotiation_start, 0, sizeof(handle->negotiation_start));
 	handle->negotiation_time = 0;
-- 
2.43.0


From f5cf8bb7dd28ce4340cc6804d05ff5ee6affcb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:23 +0000
Subject: [PATCH 252/277] fix: TLS host validation does not apply wildcards and
 base domains to addresses

10.1.2.3 was accepted for a certificate of 192.168.2.3 at the fuzzy level, and
of *.1.2.3 at any level.
---
 tls/m_tls_hostvalidate.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tls/m_tls_hostvalidate.c b/tls/m_tls_hostvalidate.c
index 8f897ff..bdaa386 100644
--- a/tls/m_tls_hostvalidate.c
+++ b/tls/m_tls_hostvalidate.c
@@ -138,6 +138,15 @@ fail:
 }
 
 
+static M_bool M_tls_verify_host_is_ipaddr(const char *name)
+{
+	unsigned char bin[16];
+	size_t        bin_len = 0;
+
+	return M_io_net_ipaddr_to_bin(bin, sizeof(bin), name, &bin_len);
+}
+
+
 static M_bool M_tls_verify_host_match(const char *hostname, const char *name, M_tls_verify_host_flags_t flags)
 {
 	if (M_str_isempty(hostname) || M_str_isempty(name))
@@ -149,6 +158,10 @@ static M_bool M_tls_verify_host_match(const char *hostname, const char *name, M_
 	if (M_str_caseeq(hostname, name))
 		return M_TRUE;
 
+	/* An address has no labels, it can only match as a whole */
+	if (M_tls_verify_host_is_ipaddr(hostname))
+		return M_FALSE;
+
 	if (flags & M_TLS_VERIFY_HOST_FLAG_ALLOW_WILDCARD) {
 		if (M_tls_verify_host_match_wildcard(hostname, name, (flags & M_TLS_VERIFY_HOST_FLAG_MULTILEVEL_WILDCARD)?M_TRUE:M_FALSE))
 			return M_TRUE;
-- 
2.43.0


From f2ebf464d10fd5403fbb114316637093ea86f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:23 +0000
Subject: [PATCH 253/277] fix: TLS clients with a certificate can reconnect to
 a server that requires one

OpenSSL refuses to resume a session if client certificates are verified and no
session id context is set.
---
 tls/m_tls_ctx_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tls/m_tls_ctx_common.c b/tls/m_tls_ctx_common.c
index 2a506c3..5835286 100644
--- a/tls/m_tls_ctx_common.c
+++ b/tls/m_tls_ctx_common.c
@@ -101,6 +101,9 @@ SSL_CTX *M_tls_ctx_init(M_bool is_server)
 		 * SSL_OP_SINGLE_DH_USE tells not to reuse DH keys -- better security */
 		SSL_CTX_set_options(ctx, SSL_OP_SINGLE_DH_USE);
 
+		/* Sessions can't be resumed without it when client certificates are required, the connection fails instead */
+		SSL_CTX_set_session_id_context(ctx, (const unsigned char *)"mstdlib", 7);
+
 		/* Enable Forward Secrecy via ECDH */
 #if OPENSSL_VERSION_NUMBER >= 0x1010000fL && !defined(LIBRESSL_VERSION_NUMBER)
 		/* Set strong order of curves/groups */
-- 
2.43.0


From 370f1420371df0f958483810686cd8269fbab291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 254/277] fix: disabling session resumption on a TLS server
 also disables tickets

Only the session cache was turned off, sessions were still resumed by ticket.
---
 tls/m_tls_serverctx.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tls/m_tls_serverctx.c b/tls/m_tls_serverctx.c
index 899859e..addf5ce 100644
--- a/tls/m_tls_serverctx.c
+++ b/tls/m_tls_serverctx.c
@@ -197,8 +197,17 @@ static void M_tls_serverctx_set_session_support(SSL_CTX *sslctx, M_bool enable)
 {
 	if (enable) {
 		SSL_CTX_set_session_cache_mode(sslctx, SSL_SESS_CACHE_SERVER);
+		SSL_CTX_clear_options(sslctx, SSL_OP_NO_TICKET);
+#if OPENSSL_VERSION_NUMBER >= 0x1010100fL && !defined(LIBRESSL_VERSION_NUMBER)
+		SSL_CTX_set_num_tickets(sslctx, 2); /* OpenSSL's default */
+#endif
 	} else {
 		SSL_CTX_set_session_cache_mode(sslctx, SSL_SESS_CACHE_OFF);
+		/* Tickets don't use the cache */
+		SSL_CTX_set_options(sslctx, SSL_OP_NO_TICKET);
+#if OPENSSL_VERSION_NUMBER >= 0x1010100fL && !defined(LIBRESSL_VERSION_NUMBER)
+		SSL_CTX_set_num_tickets(sslctx, 0);
+#endif
 	}
 }
 
-- 
2.43.0


From 2834a31e0e9428cb9ba65156bfc083371342cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 255/277] fix: PROXY v2 LOCAL headers must wait for all of
 their data

---
 io/m_io_proxy_protocol.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 2240f46..e169e72 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -438,9 +438,9 @@ static M_state_machine_status_t state_v2_header(void *data, M_uint64 *next)
 		}
 	} else {
 		/* If it's a local operation, we're going to eat the rest of
- 		 * the data and stop processing. */
-		M_parser_consume(handle->parser, handle->v2_dlen);
-		return M_STATE_MACHINE_STATUS_DONE;
+ 		 * the data, once it has all arrived, and stop processing. */
+		*next = STATE_V2_TLV;
+		return M_STATE_MACHINE_STATUS_NEXT;
 	}
 
 	return M_STATE_MACHINE_STATUS_NEXT;
-- 
2.43.0


From d5dbeeee5566929fca0be4b739259df659d650dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 256/277] fix: PROXY v1 headers with malformed ports or
 addresses of the wrong family must be refused

---
 io/m_io_proxy_protocol.c | 48 ++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index e169e72..06e08cf 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -150,6 +150,34 @@ static M_state_machine_status_t state_v1_post(void *data, M_state_machine_status
 	return sub_status;
 }
 
+/* A port is 1 to 5 digits with a value from 1 to 65535. */
+static M_bool v1_parse_port(const char *str, size_t len, M_uint16 *port)
+{
+	M_uint32 val;
+
+	if (len == 0 || len > 5 || M_str_len(str) != len || !M_str_isnum(str))
+		return M_FALSE;
+
+	val = M_str_to_uint32(str);
+	if (val == 0 || val > M_UINT16_MAX)
+		return M_FALSE;
+
+	*port = (M_uint16)val;
+	return M_TRUE;
+}
+
+/* An address has to be of the protocol's family. */
+static M_bool v1_validate_ipaddr(const M_io_handle_t *handle, const char *str, size_t len)
+{
+	unsigned char ipaddr_bin[32];
+	size_t        bin_len = 0;
+
+	if (M_str_len(str) != len || !M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), str, &bin_len))
+		return M_FALSE;
+
+	return (bin_len == (handle->net_type == M_IO_NET_IPV4 ? 4 : 16))?M_TRUE:M_FALSE;
+}
+
 /* Server V1 states. */
 static M_state_machine_status_t state_v1_header(void *data, M_uint64 *next)
 {
@@ -196,9 +224,9 @@ static M_state_machine_status_t state_v1_protocol(void *data, M_uint64 *next)
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
 
-	if (M_str_caseeq(buf, "TCP4")) {
+	if (len == 4 && M_str_caseeq(buf, "TCP4")) {
 		handle->net_type = M_IO_NET_IPV4;
-	} else if (M_str_caseeq(buf, "TCP6")) {
+	} else if (len == 4 && M_str_caseeq(buf, "TCP6")) {
 		handle->net_type = M_IO_NET_IPV6;
 	} else {
 		M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Invalid protocol");
@@ -215,7 +243,6 @@ static M_state_machine_status_t state_v1_source_ipaddr(void *data, M_uint64 *nex
 {
 	M_io_handle_t *handle = data;
 	char           buf[64];
-	unsigned char  ipaddr_bin[32];
 	size_t         plen;
 	size_t         len;
 
@@ -237,7 +264,7 @@ static M_state_machine_status_t state_v1_source_ipaddr(void *data, M_uint64 *nex
 		}
 	}
 
-	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), buf, &len)) {
+	if (!v1_validate_ipaddr(handle, buf, len)) {
 		M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Invalid source address");
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
@@ -253,7 +280,6 @@ static M_state_machine_status_t state_v1_dest_ipaddr(void *data, M_uint64 *next)
 {
 	M_io_handle_t *handle = data;
 	char           buf[64];
-	unsigned char  ipaddr_bin[32];
 	size_t         plen;
 	size_t         len;
 
@@ -275,7 +301,7 @@ static M_state_machine_status_t state_v1_dest_ipaddr(void *data, M_uint64 *next)
 		}
 	}
 
-	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), buf, &len)) {
+	if (!v1_validate_ipaddr(handle, buf, len)) {
 		M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Invalid destination address");
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
@@ -291,7 +317,6 @@ static M_state_machine_status_t state_v1_source_port(void *data, M_uint64 *next)
 {
 	M_io_handle_t *handle = data;
 	char           buf[8];
-	M_uint32       port;
 	size_t         plen;
 	size_t         len;
 
@@ -311,9 +336,7 @@ static M_state_machine_status_t state_v1_source_port(void *data, M_uint64 *next)
 		}
 	}
 
-	port                = M_str_to_uint32(buf);
-	handle->source_port = (M_uint16)port;
-	if (handle->source_port == 0 || port > M_UINT16_MAX) {
+	if (!v1_parse_port(buf, len, &handle->source_port)) {
 		M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Invalid source port");
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
@@ -328,7 +351,6 @@ static M_state_machine_status_t state_v1_dest_port(void *data, M_uint64 *next)
 {
 	M_io_handle_t *handle = data;
 	char           buf[8];
-	M_uint32       port;
 	size_t         plen;
 	size_t         len;
 
@@ -348,9 +370,7 @@ static M_state_machine_status_t state_v1_dest_port(void *data, M_uint64 *next)
 		}
 	}
 
-	port              = M_str_to_uint32(buf);
-	handle->dest_port = (M_uint16)port;
-	if (handle->dest_port == 0 || port > M_UINT16_MAX) {
+	if (!v1_parse_port(buf, len, &handle->dest_port)) {
 		M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Invalid destination port");
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
-- 
2.43.0


From 8d1e6f9fd7d9a1d0434b9cbad1ae017814f726c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 257/277] fix: PROXY v1 headers must not be refused when they
 are split after a port's digits

---
 io/m_io_proxy_protocol.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 06e08cf..e72cfb9 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -328,7 +328,8 @@ static M_state_machine_status_t state_v1_source_port(void *data, M_uint64 *next)
 		/* If the start and end len in the parser are different, then
  		 * the until string was found but the buffer was too small. */
 		len = M_parser_len(handle->parser);
-		if (len >= 5 || len != plen) {
+		/* 5 digits is the max length we can have for this field. */
+		if (len > 5 || len != plen) {
 			M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Missing or invalid source port");
 			return M_STATE_MACHINE_STATUS_ERROR_STATE;
 		} else {
@@ -362,7 +363,8 @@ static M_state_machine_status_t state_v1_dest_port(void *data, M_uint64 *next)
 		/* If the start and end len in the parser are different, then
  		 * the until string was found but the buffer was too small. */
 		len = M_parser_len(handle->parser);
-		if (len >= 5 || len != plen) {
+		/* 5 digits and half of the EOL is the most we can have without the EOL being complete. */
+		if (len > 6 || len != plen) {
 			M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Missing or invalid destination port");
 			return M_STATE_MACHINE_STATUS_ERROR_STATE;
 		} else {
-- 
2.43.0


From decc639b34b7041f6ea1c4e33062f0059be3a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 258/277] fix: no data may be read from an inbound PROXY
 protocol layer before its header is validated

---
 io/m_io_proxy_protocol.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index e72cfb9..7015137 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -642,6 +642,13 @@ static M_io_error_t M_io_proxy_protocol_read_cb(M_io_layer_t *layer, unsigned ch
 	if (layer == NULL || handle == NULL)
 		return M_IO_ERROR_INVALID;
 
+	/* Nothing may be read until the proxy information has been received and validated. */
+	if (!handle->complete) {
+		if (handle->state == M_IO_STATE_INIT || handle->state == M_IO_STATE_CONNECTING)
+			return M_IO_ERROR_WOULDBLOCK;
+		return (handle->state == M_IO_STATE_DISCONNECTED)?M_IO_ERROR_DISCONNECT:M_IO_ERROR_ERROR;
+	}
+
 	/* If we don't have any left over buffered data from connect,
  	 * just read from the next layer down because we have nothing. */
 	len = M_parser_len(handle->parser);
-- 
2.43.0


From 2e8818e1b1d2a5f770b7c2f64976c33d18d6f321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 259/277] fix: data received together with a disconnect must
 not be lost by an inbound PROXY protocol layer

---
 io/m_io_proxy_protocol.c | 51 ++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 7015137..1430d4b 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -678,11 +678,11 @@ static M_io_error_t M_io_proxy_protocol_read_cb(M_io_layer_t *layer, unsigned ch
 	err = M_io_layer_read(M_io_layer_get_io(layer), M_io_layer_get_index(layer)-1, buf, read_len, meta);
 	if (err == M_IO_ERROR_SUCCESS) {
 		*read_len += len;
-	} else if (!M_io_error_is_critical(err)) {
+	} else {
+		/* The buffered data was read even if there isn't more. A critical
+		 * error is reported by its event and by the next read. */
 		*read_len = len;
 		err       = M_IO_ERROR_SUCCESS;
-	} else {
-		handle->state = M_IO_STATE_ERROR;
 	}
 
 	return err;
@@ -705,8 +705,9 @@ static M_bool M_io_proxy_protocol_process_inbound(M_io_layer_t *layer, M_io_hand
 	if (*etype != M_EVENT_TYPE_READ)
 		return M_FALSE;
 
-	/* Start reading data into our parser so we can look for and remove the
- 	 * proxy information. */
+	/* Read data into our parser so we can look for and remove the proxy information.
+	 * Stop as soon as it is complete, anything after it (including an error) is for
+	 * whoever reads from this layer. */
 	do {
 		buf_len = sizeof(buf);
 		err     = M_io_layer_read(M_io_layer_get_io(layer), M_io_layer_get_index(layer) - 1, buf, &buf_len, NULL);
@@ -717,29 +718,27 @@ static M_bool M_io_proxy_protocol_process_inbound(M_io_layer_t *layer, M_io_hand
 		}
 		if (err == M_IO_ERROR_SUCCESS) {
 			M_parser_append(handle->parser, buf, buf_len);
-		}
-	} while (err == M_IO_ERROR_SUCCESS);
 
-	/* Try to process the data. Even if we have a non-critical error,
- 	 * we might have read data successfully before it happened. */
-	smerr = M_state_machine_run(handle->sm, handle);
-	if (smerr == M_STATE_MACHINE_STATUS_DONE) {
-		handle->state    = M_IO_STATE_CONNECTED;
-		handle->complete = M_TRUE;
-		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
-		if (M_parser_len(handle->parser) > 0) {
-			M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
-		}
-		if (handle->timer) {
-			M_event_timer_remove(handle->timer);
-			handle->timer = NULL;
+			smerr = M_state_machine_run(handle->sm, handle);
+			if (smerr == M_STATE_MACHINE_STATUS_DONE) {
+				handle->state    = M_IO_STATE_CONNECTED;
+				handle->complete = M_TRUE;
+				/* There may be more data here or in the layer below. */
+				M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
+				if (handle->timer) {
+					M_event_timer_remove(handle->timer);
+					handle->timer = NULL;
+				}
+				/* Deliver right away. As a soft event it could be preceded by a disconnect. */
+				*etype = M_EVENT_TYPE_CONNECTED;
+				return M_FALSE;
+			} else if (smerr == M_STATE_MACHINE_STATUS_ERROR_STATE) {
+				handle->state = M_IO_STATE_ERROR;
+				*etype = M_EVENT_TYPE_ERROR;
+				return M_FALSE;
+			}
 		}
-		*etype = M_EVENT_TYPE_CONNECTED;
-	} else if (smerr == M_STATE_MACHINE_STATUS_ERROR_STATE) {
-		handle->state = M_IO_STATE_ERROR;
-		*etype = M_EVENT_TYPE_ERROR;
-		return M_FALSE;
-	}
+	} while (err == M_IO_ERROR_SUCCESS);
 
 	return M_TRUE;
 }
-- 
2.43.0


From 17ce9f31a370c63dc3ced8be4be5562dcc141322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:59 +0000
Subject: [PATCH 260/277] fix: a process must not inherit the pipe ends of
 other processes being started

---
 io/m_io_pipe_int.h   | 5 +++++
 io/m_io_pipe_posix.c | 6 ++++--
 io/m_io_process.c    | 9 ++++++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/io/m_io_pipe_int.h b/io/m_io_pipe_int.h
index 31f8951..8f5df32 100644
--- a/io/m_io_pipe_int.h
+++ b/io/m_io_pipe_int.h
@@ -7,6 +7,11 @@
 #include <mstdlib/io/m_io_layer.h>
 #include "m_event_int.h"
 
+/* Internal flag for M_io_pipe_create(): an inheritable end is for a child that duplicates it onto one of
+ * its standard descriptors, so it doesn't have to (and must not) survive the exec of any other child.
+ * Ignored where not supported. */
+#define M_IO_PIPE_INHERIT_DUP (1 << 16)
+
 M_EVENT_HANDLE M_io_pipe_get_fd(M_io_t *io);
 
 #endif
diff --git a/io/m_io_pipe_posix.c b/io/m_io_pipe_posix.c
index 49b1357..1e86e53 100644
--- a/io/m_io_pipe_posix.c
+++ b/io/m_io_pipe_posix.c
@@ -201,7 +201,8 @@ M_io_error_t M_io_pipe_create(M_uint32 flags, M_io_t **reader, M_io_t **writer)
 	}
 
 	if (flags & M_IO_PIPE_INHERIT_READ) {
-		M_io_posix_fd_set_closeonexec(pipefds[0], M_FALSE);
+		if (!(flags & M_IO_PIPE_INHERIT_DUP))
+			M_io_posix_fd_set_closeonexec(pipefds[0], M_FALSE);
 	} else {
 		/* If not setting up for inheritance, set up for non-blocking.
 		 * This is especially important that we don't set non-blocking if
@@ -212,7 +213,8 @@ M_io_error_t M_io_pipe_create(M_uint32 flags, M_io_t **reader, M_io_t **writer)
 		}
 	}
 	if (flags & M_IO_PIPE_INHERIT_WRITE) {
-		M_io_posix_fd_set_closeonexec(pipefds[1], M_FALSE);
+		if (!(flags & M_IO_PIPE_INHERIT_DUP))
+			M_io_posix_fd_set_closeonexec(pipefds[1], M_FALSE);
 	} else {
 		/* If not setting up for inheritance, set up for non-blocking */
 		if (!M_io_setnonblock(pipefds[1])) {
diff --git a/io/m_io_process.c b/io/m_io_process.c
index ac332d7..6430b3f 100644
--- a/io/m_io_process.c
+++ b/io/m_io_process.c
@@ -215,16 +215,19 @@ static void *M_io_process_thread(void *arg)
 		/* Clone file descriptors to the proper ids */
 		fd = M_io_pipe_get_fd(handle->pipe_stdin);
 		dup2(fd, STDIN_FILENO);
+		M_io_posix_fd_set_closeonexec(STDIN_FILENO, M_FALSE);
 		if (fd > 2)
 			close(fd);
 
 		fd = M_io_pipe_get_fd(handle->pipe_stdout);
 		dup2(fd, STDOUT_FILENO);
+		M_io_posix_fd_set_closeonexec(STDOUT_FILENO, M_FALSE);
 		if (fd > 2)
 			close(fd);
 
 		fd = M_io_pipe_get_fd(handle->pipe_stderr);
 		dup2(fd, STDERR_FILENO);
+		M_io_posix_fd_set_closeonexec(STDERR_FILENO, M_FALSE);
 		if (fd > 2)
 			close(fd);
 
@@ -809,9 +812,9 @@ M_io_error_t M_io_process_create(const char *command, M_list_str_t *args, M_hash
 	}
 
 	/* Create pipes for stdin, stdout, and stderr, regardless of if the end-user needs them */
-	if (M_io_pipe_create(M_IO_PIPE_INHERIT_READ,  &pipe_stdin_r,  &pipe_stdin_w)  != M_IO_ERROR_SUCCESS ||
-		M_io_pipe_create(M_IO_PIPE_INHERIT_WRITE, &pipe_stdout_r, &pipe_stdout_w) != M_IO_ERROR_SUCCESS ||
-		M_io_pipe_create(M_IO_PIPE_INHERIT_WRITE, &pipe_stderr_r, &pipe_stderr_w) != M_IO_ERROR_SUCCESS) {
+	if (M_io_pipe_create(M_IO_PIPE_INHERIT_READ|M_IO_PIPE_INHERIT_DUP,  &pipe_stdin_r,  &pipe_stdin_w)  != M_IO_ERROR_SUCCESS ||
+		M_io_pipe_create(M_IO_PIPE_INHERIT_WRITE|M_IO_PIPE_INHERIT_DUP, &pipe_stdout_r, &pipe_stdout_w) != M_IO_ERROR_SUCCESS ||
+		M_io_pipe_create(M_IO_PIPE_INHERIT_WRITE|M_IO_PIPE_INHERIT_DUP, &pipe_stderr_r, &pipe_stderr_w) != M_IO_ERROR_SUCCESS) {
 		rv = M_IO_ERROR_NOSYSRESOURCES;
 		goto fail;
 	}
-- 
2.43.0


From 40246088b1b63d4151ca2f3e05e9a9b2cf4ab89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:59 +0000
Subject: [PATCH 261/277] fix: a process killed by a signal must not be
 reported with an exit code of 0

---
 io/m_io_process.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/io/m_io_process.c b/io/m_io_process.c
index 6430b3f..64895fb 100644
--- a/io/m_io_process.c
+++ b/io/m_io_process.c
@@ -281,9 +281,15 @@ static void *M_io_process_thread(void *arg)
 
 	/* Record exit code and notify watcher */
 	layer                  = M_io_layer_acquire(handle->proc, 0, "PROCESS");
-	handle->return_code    = WEXITSTATUS(wstatus);
+	if (WIFSIGNALED(wstatus)) {
+		/* Same as a shell would report it */
+		handle->return_code    = 128 + WTERMSIG(wstatus);
+		handle->last_sys_error = 0;
+	} else {
+		handle->return_code    = WEXITSTATUS(wstatus);
+		handle->last_sys_error = M_io_process_exitcode_to_errno(handle->return_code);
+	}
 	handle->status         = M_IO_PROC_STATUS_EXITED;
-	handle->last_sys_error = M_io_process_exitcode_to_errno(handle->return_code);
 	M_io_layer_softevent_add(layer, M_FALSE, (handle->last_sys_error == 0 && !handle->timedout)?M_EVENT_TYPE_DISCONNECTED:M_EVENT_TYPE_ERROR, handle->timedout?M_IO_ERROR_TIMEDOUT:M_io_posix_err_to_ioerr(handle->last_sys_error));
 	M_io_layer_release(layer);
 
-- 
2.43.0


From ecacb50d0c4d0b57baacb69293d5f49236eb3ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:59 +0000
Subject: [PATCH 262/277] fix: a child whose exec failed must not run the
 parent's exit handlers

---
 io/m_io_process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/m_io_process.c b/io/m_io_process.c
index 64895fb..6ebcb96 100644
--- a/io/m_io_process.c
+++ b/io/m_io_process.c
@@ -253,7 +253,7 @@ static void *M_io_process_thread(void *arg)
 		 *              format error that means it cannot be executed.
 		 *  - OTHERS  - Any other reason
 		 */
-		exit(M_io_process_errno_to_exitcode(errno));
+		_exit(M_io_process_errno_to_exitcode(errno));
 	}
 
 	/* Parent */
-- 
2.43.0


From c0fd2dde344106b46e0467fe572e999671cc5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:59 +0000
Subject: [PATCH 263/277] fix: destroying a process object while its process is
 being started must not kill the own process group

---
 io/m_io_process.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/io/m_io_process.c b/io/m_io_process.c
index 6ebcb96..80a73f6 100644
--- a/io/m_io_process.c
+++ b/io/m_io_process.c
@@ -97,6 +97,8 @@ struct M_io_handle {
 	M_timeval_t           start_timer;
 	M_event_timer_t      *timer;
 	M_threadid_t          thread;
+	M_thread_mutex_t     *lock;      /*!< Protects pid and destroyed while the process is being started */
+	M_bool                destroyed;
 };
 
 #ifndef _WIN32
@@ -185,7 +187,18 @@ static void *M_io_process_thread(void *arg)
 	M_io_layer_t  *layer   = NULL;
 	int            wstatus = 0;
 
+	M_thread_mutex_lock(handle->lock);
+	if (handle->destroyed) {
+		M_thread_mutex_unlock(handle->lock);
+		return NULL;
+	}
+
 	pid = fork();
+	if (pid != 0) {
+		if (pid > 0)
+			handle->pid = pid;
+		M_thread_mutex_unlock(handle->lock);
+	}
 
 	/* Error */
 	if (pid == -1) {
@@ -267,7 +280,6 @@ static void *M_io_process_thread(void *arg)
 	handle->pipe_stdout = NULL;
 	handle->pipe_stderr = NULL;
 	handle->status      = M_IO_PROC_STATUS_RUNNING;
-	handle->pid         = pid;
 	M_time_elapsed_start(&handle->start_timer);
 
 	M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
@@ -408,8 +420,18 @@ static void *M_io_process_thread(void *arg)
 
 	M_mem_set(&pi, 0, sizeof(pi));
 
+	M_thread_mutex_lock(handle->lock);
+	if (handle->destroyed) {
+		M_thread_mutex_unlock(handle->lock);
+		M_free(command);
+		M_free(env);
+		return NULL;
+	}
 	rv  = CreateProcessA(NULL, command, NULL, NULL, TRUE, CREATE_NO_WINDOW, env, NULL, &siStartInfo, &pi);
 	err = GetLastError();
+	if (rv)
+		handle->pid = (int)pi.dwProcessId;
+	M_thread_mutex_unlock(handle->lock);
 	M_free(command);
 	M_free(env);
 
@@ -441,7 +463,6 @@ static void *M_io_process_thread(void *arg)
 	handle->pipe_stdout = NULL;
 	handle->pipe_stderr = NULL;
 	handle->status      = M_IO_PROC_STATUS_RUNNING;
-	handle->pid         = (int)pi.dwProcessId;
 	M_time_elapsed_start(&handle->start_timer);
 
 	M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
@@ -615,9 +636,12 @@ static void M_io_process_destroy_cb(M_io_layer_t *layer)
 	void          *rv;
 
 	/* Forcibly kill process as it appears to still be running */
-	if (handle->status == M_IO_PROC_STATUS_STARTING || handle->status == M_IO_PROC_STATUS_RUNNING) {
+	M_thread_mutex_lock(handle->lock);
+	handle->destroyed = M_TRUE;
+	if (handle->pid > 0 && (handle->status == M_IO_PROC_STATUS_STARTING || handle->status == M_IO_PROC_STATUS_RUNNING)) {
 		M_io_process_kill(handle);
 	}
+	M_thread_mutex_unlock(handle->lock);
 
 	/* Join the thread to wait for it to exit */
 	if (handle->thread)
@@ -630,6 +654,7 @@ static void M_io_process_destroy_cb(M_io_layer_t *layer)
 	M_io_destroy(handle->pipe_stdin);
 	M_io_destroy(handle->pipe_stdout);
 	M_io_destroy(handle->pipe_stderr);
+	M_thread_mutex_destroy(handle->lock);
 	M_free(handle);
 }
 
@@ -836,6 +861,7 @@ M_io_error_t M_io_process_create(const char *command, M_list_str_t *args, M_hash
 	if (args)
 		handle->args    = M_list_str_duplicate(args);
 	handle->timeout_ms  = timeout_ms;
+	handle->lock        = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE);
 
 	*proc        = M_io_init(M_IO_TYPE_EVENT);
 	handle->proc = *proc;
-- 
2.43.0


From fba3cfcf042ee720c950d3c27ec00c1afdbf1828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:59 +0000
Subject: [PATCH 264/277] fix: a process that exited must not be killed by its
 timeout

---
 io/m_io_process.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/io/m_io_process.c b/io/m_io_process.c
index 80a73f6..1e9ced6 100644
--- a/io/m_io_process.c
+++ b/io/m_io_process.c
@@ -705,8 +705,11 @@ static void M_io_process_timeout_cb(M_event_t *event, M_event_type_t type, M_io_
 	(void)io_dummy;
 
 	layer            = M_io_layer_acquire(io, 0, NULL);
-	handle->timedout = M_TRUE;
-	M_io_process_kill(handle);
+	/* It may have exited on its own while the timer was waiting for its turn */
+	if (handle->status == M_IO_PROC_STATUS_RUNNING) {
+		handle->timedout = M_TRUE;
+		M_io_process_kill(handle);
+	}
 
 	M_event_timer_remove(handle->timer);
 	handle->timer = NULL;
-- 
2.43.0


From 09f2ca15d8bee8a0f7daedf87b5e9eb02ea73a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:59 +0000
Subject: [PATCH 265/277] fix: destroying an io object must not leave the event
 loop locked by a thread that was waiting for it

---
 io/m_io.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/io/m_io.c b/io/m_io.c
index a6b2198..8de46e0 100644
--- a/io/m_io.c
+++ b/io/m_io.c
@@ -57,11 +57,19 @@ M_io_t *M_io_init(M_io_type_t type)
 
 void M_io_lock(M_io_t *io)
 {
-	if (io == NULL || io->reg_event == NULL) {
+	M_event_t *event;
+
+	if (io == NULL)
 		return;
-	}
 
-	M_event_lock(io->reg_event);
+	/* The registration may change while waiting on the lock, what matters is the one
+	 * M_io_unlock() will see. */
+	while ((event = io->reg_event) != NULL) {
+		M_event_lock(event);
+		if (io->reg_event == event)
+			break;
+		M_event_unlock(event);
+	}
 //M_printf("%s(): [%p] io %p event %p\n", __FUNCTION__, (void *)M_thread_self(), io, io->reg_event);  fflush(stdout);
 }
 
@@ -296,10 +304,11 @@ static void M_io_destroy_full(M_io_t *io)
 	}
 	M_event_remove(io);
 
-	/* Alright, right now locking uses the event registration, rehook and unhook */
-	io->reg_event = event;
-	M_io_unlock(io);
-	io->reg_event = NULL;
+	/* Alright, right now locking uses the event registration, which is already unhooked.
+	 * It can't be hooked again, as another thread waiting on the lock would then never
+	 * release it. */
+	if (event != NULL)
+		M_event_unlock(event);
 
 	M_io_block_data_free(io);
 
-- 
2.43.0


From 15584d7d6f5205a0ccb9dadee0c1b3ecbbb97138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 266/277] fix: the HTTP client must not pass a response along
 with an error

---
 net/m_net_http_simple.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/m_net_http_simple.c b/net/m_net_http_simple.c
index 4bd131a..2c2c17e 100644
--- a/net/m_net_http_simple.c
+++ b/net/m_net_http_simple.c
@@ -204,7 +204,10 @@ static void call_done(M_net_http_simple_t *hs)
 	M_event_timer_stop(hs->timer_stall);
 	M_event_timer_stop(hs->timer_overall);
 
-	hs->done_cb(hs->neterr, hs->httperr, hs->simple, hs->error, hs->thunk);
+	/* There is only a response when there wasn't an error (as opposed to e.g. a redirect that couldn't be followed). */
+	hs->done_cb(hs->neterr, hs->httperr,
+		(hs->neterr == M_NET_ERROR_SUCCESS && hs->httperr == M_HTTP_ERROR_SUCCESS)?hs->simple:NULL,
+		hs->error, hs->thunk);
 
 	/* DO NOT USE hs after this point. Nothing can set
  	 * hs as a thunk argument for a cb to receive!!! */
-- 
2.43.0


From c4285a3170782af83bc2540f476bf70280245ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 267/277] fix: a redirect the HTTP client can't follow must be
 reported as an error

---
 net/m_net_http_simple.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/net/m_net_http_simple.c b/net/m_net_http_simple.c
index 2c2c17e..baee139 100644
--- a/net/m_net_http_simple.c
+++ b/net/m_net_http_simple.c
@@ -374,7 +374,11 @@ static void handle_redirect(M_net_http_simple_t *hs)
 	}
 
 	if (!M_net_http_simple_send(hs, location, hs->thunk)) {
-		/* Send sets error. */
+		/* Send sets error, unless the url itself is not usable. */
+		if (hs->neterr == M_NET_ERROR_SUCCESS) {
+			hs->neterr = M_NET_ERROR_REDIRECT;
+			M_snprintf(hs->error, sizeof(hs->error), "Invalid redirect: Location unusable");
+		}
 		M_free(location);
 
 		call_done(hs);
-- 
2.43.0


From ec1c5bd04441de833da00e39ebd10cb1670da92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 268/277] fix: a 304 response is not a redirect

---
 net/m_net_http_simple.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/m_net_http_simple.c b/net/m_net_http_simple.c
index baee139..55016d2 100644
--- a/net/m_net_http_simple.c
+++ b/net/m_net_http_simple.c
@@ -393,7 +393,8 @@ static void process_response(M_net_http_simple_t *hs)
 	M_uint32 status_code;
 
 	status_code = M_http_simple_read_status_code(hs->simple);
-	if (status_code >= 300 && status_code <= 399) {
+	/* Not modified is a final response. */
+	if (status_code >= 300 && status_code <= 399 && status_code != 304) {
 		handle_redirect(hs);
 		return;
 	}
-- 
2.43.0


From 6addbc56c01ae79d5677bd0c7f473a83aefadc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 269/277] fix: the HTTP client must not take a colon in a path
 or query for a port

---
 net/m_net_http_simple.c | 42 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/net/m_net_http_simple.c b/net/m_net_http_simple.c
index 55016d2..59a4ee9 100644
--- a/net/m_net_http_simple.c
+++ b/net/m_net_http_simple.c
@@ -133,6 +133,7 @@ static void split_url(const char *url, char **host, M_uint16 *port, char **uri)
 	M_parser_t *parser;
 	M_uint64    port64;
 	M_uint16    myport;
+	char       *path;
 
 	if (port == NULL)
 		port = &myport;
@@ -143,16 +144,14 @@ static void split_url(const char *url, char **host, M_uint16 *port, char **uri)
 	/* Kill off the prefix. */ 
 	M_parser_consume_str_until(parser, "://", M_TRUE);
 
-	/* Mark the start of the host. */
+	/* The host ends where the port, path, query, or fragment starts. */
 	M_parser_mark(parser);
+	M_parser_consume_str_not_charset(parser, ":/?#");
+	if (host != NULL) {
+		*host = M_parser_read_strdup_mark(parser);
+	}
 
-	if (M_parser_consume_str_until(parser, ":", M_FALSE) != 0) {
-		/* Having a ":" means we have a port so everything before is
-		 * the host. */
-		if (host != NULL) {
-			*host = M_parser_read_strdup_mark(parser);
-		}
-
+	if (M_parser_compare_str(parser, ":", 1, M_FALSE)) {
 		/* kill the ":". */
 		M_parser_consume(parser, 1);
 
@@ -160,27 +159,16 @@ static void split_url(const char *url, char **host, M_uint16 *port, char **uri)
 		if (M_parser_read_uint(parser, M_PARSER_INTEGER_ASCII, 0, 10, &port64)) {
 			*port = (M_uint16)port64;
 		}
-	} else if (M_parser_consume_str_until(parser, "/", M_FALSE) != 0) {
-		/* No port was specified try to find the start of the path. */
-		if (host != NULL) {
-			*host = M_parser_read_strdup_mark(parser);
-		}
-	} else {
-		/* No port and no / means all we have is the host. */
-		if (host != NULL) {
-			*host = M_parser_read_strdup(parser, M_parser_len(parser));
-		}
 	}
 
-	/* Get the uri. */
-	if (M_parser_len(parser) == 0) {
-		/* Nothing left, must be /. */
-		if (uri != NULL) {
-			*uri = M_strdup("/");
-		}
-	} else {
-		if (uri != NULL) {
-			*uri = M_parser_read_strdup(parser, M_parser_len(parser));
+	/* Get the uri. The fragment isn't part of it and it always has a path. */
+	if (uri != NULL) {
+		path = M_parser_read_strdup_not_charset(parser, "#");
+		if (path == NULL || *path != '/') {
+			M_asprintf(uri, "/%s", M_str_safe(path));
+			M_free(path);
+		} else {
+			*uri = path;
 		}
 	}
 
-- 
2.43.0


From 6cbc9e4522a522e60d00ab0c403ef69517d5e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:27 +0000
Subject: [PATCH 270/277] fix: HTTP status codes with trailing garbage must be
 refused

---
 formats/http/m_http_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index c0cd283..ac55e2b 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -383,7 +383,7 @@ static M_http_error_t M_http_read_start_line_response(M_http_reader_t *httpr, M_
 		return res;
 
 	/* Part 2: Status code */
-	if (!M_parser_read_uint(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &code))
+	if (!M_parser_read_uint(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &code) || M_parser_len(parts[1]) != 0)
 		return M_HTTP_ERROR_STARTLINE_MALFORMED;
 
 	/* Part 3: Reason phrase
-- 
2.43.0


From bc3c2d77d2b65af10c2482fdbbf32e6a2524d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:26 +0000
Subject: [PATCH 271/277] fix: M_event_return() of a loop or pool member ends
 it with M_EVENT_ERR_RETURN as documented

---
 io/m_event.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/m_event.c b/io/m_event.c
index 3464ac4..ba53a96 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -1174,9 +1174,9 @@ void M_event_return(M_event_t *event)
 
 	if (event->type == M_EVENT_BASE_TYPE_LOOP) {
 		if (event->u.loop.parent) {
-			M_event_done(event->u.loop.parent);
+			M_event_return(event->u.loop.parent);
 		} else {
-			M_event_status_change(event, M_EVENT_STATUS_DONE);
+			M_event_status_change(event, M_EVENT_STATUS_RETURN);
 		}
 		return;
 	}
-- 
2.43.0


From d6d8f5d83f2f06d3309832dca00f707628624b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:26 +0000
Subject: [PATCH 272/277] fix: signalling an event trigger doesn't touch it
 after its callback may have removed it

---
 io/m_event_trigger.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/io/m_event_trigger.c b/io/m_event_trigger.c
index 6efc8ea..4efda0f 100644
--- a/io/m_event_trigger.c
+++ b/io/m_event_trigger.c
@@ -111,11 +111,11 @@ static void M_io_event_trigger(M_io_t *io)
 	layer = M_io_layer_acquire(io, 0, "TRIGGER");
 	if (layer == NULL)
 		return;
+
+	/* Adding the soft event wakes the event loop.  The io object can't be used once the layer is
+	 * released, as the callback for this signal may already have removed the trigger. */
 	M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_OTHER, M_IO_ERROR_SUCCESS);
 	M_io_layer_release(layer);
-
-	/* Since we rely on soft events, we have to wake the event loop */
-	M_event_wake(M_io_get_event(io));
 }
 
 
-- 
2.43.0


From 6382d8b09e3a18cb2396aefb3dfefe4668f74431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:35 +0000
Subject: [PATCH 273/277] fix: emails with attachments but without a container
 part only use the declared boundary

---
 formats/email/m_email_simple_writer.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/formats/email/m_email_simple_writer.c b/formats/email/m_email_simple_writer.c
index 17acff7..823e419 100644
--- a/formats/email/m_email_simple_writer.c
+++ b/formats/email/m_email_simple_writer.c
@@ -47,6 +47,14 @@ static M_bool M_email_has_attachment(const M_email_t *email)
 }
 
 
+/* The first part can be a container holding the non-attachment parts. */
+static M_bool M_email_has_sub_multipart(const M_email_t *email)
+{
+	if (M_email_parts_len(email) == 0 || M_email_part_is_attachmenet(email, 0))
+		return M_FALSE;
+	return M_str_casestr(M_hash_dict_get_direct(M_email_part_headers(email, 0), "Content-Type"), "multipart") != NULL;
+}
+
 static char *M_email_write_gen_boundary(void)
 {
 	M_rand_t *r;
@@ -308,7 +316,8 @@ static M_bool M_email_simple_write_add_parts(const M_email_t *email, M_buf_t *bu
 		const char          *key;
 		const char          *val;
 
-		if (M_email_part_is_attachmenet(email, i) != is_processing_attachments)
+		/* Without a sub boundary every part goes directly into the outer multipart. */
+		if (boundary != sub_boundary && M_email_part_is_attachmenet(email, i) != is_processing_attachments)
 			continue;
 
 		/* Add the boundary. */
@@ -462,7 +471,7 @@ M_bool M_email_simple_write_buf(const M_email_t *email, M_buf_t *buf)
 	if (!M_email_simple_write_add_preamble(email, buf))
 		goto err;
 
-	if (M_email_has_attachment(email)) {
+	if (M_email_has_attachment(email) && M_email_has_sub_multipart(email)) {
 		sub_boundary = M_email_write_gen_boundary();
 		if (!M_email_simple_write_add_parts(email, buf, boundary, sub_boundary, M_FALSE))
 			goto err;
-- 
2.43.0


From 09c0e06ab9c2a9c97f2948e9df1b3234fd7fb248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:35 +0000
Subject: [PATCH 274/277] fix: email reader accepts a multipart preamble that
 arrives in pieces

---
 formats/email/m_email_reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/formats/email/m_email_reader.c b/formats/email/m_email_reader.c
index 620452b..3ab0321 100644
--- a/formats/email/m_email_reader.c
+++ b/formats/email/m_email_reader.c
@@ -469,7 +469,11 @@ static M_state_machine_status_t state_multipart_preamble(void *data, M_uint64 *n
 	M_parser_mark(emailr->parser);
 	data_len    = M_parser_consume_boundary(emailr->parser, (const unsigned char *)emailr->boundary, emailr->boundary_len, M_FALSE, &found);
 	consume_len = data_len;
-	if (found && M_parser_len(emailr->parser) >= emailr->boundary_len + 2) {
+	if (!found || M_parser_len(emailr->parser) < emailr->boundary_len + 2) {
+		/* Can't tell what the end of the data belongs to until the full boundary is there. */
+		M_parser_mark_rewind(emailr->parser);
+		return M_STATE_MACHINE_STATUS_WAIT;
+	} else {
 		/* Eat the boundary. */
 		M_parser_consume(emailr->parser, emailr->boundary_len);
 
-- 
2.43.0


From fb2f8c97cef0fad3e8d5790f113d668504139428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:35 +0000
Subject: [PATCH 275/277] fix: email reader keeps line ends of part data that
 arrives in pieces

---
 formats/email/m_email_reader.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/formats/email/m_email_reader.c b/formats/email/m_email_reader.c
index 3ab0321..58702de 100644
--- a/formats/email/m_email_reader.c
+++ b/formats/email/m_email_reader.c
@@ -572,13 +572,32 @@ static M_state_machine_status_t state_multipart_data(void *data, M_uint64 *next)
 		boundary_len = emailr->boundary_len;
 		consume_len = M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->boundary, boundary_len, M_FALSE, &found);
 	}
+	if (!found) {
+		/* The sub boundary may have started to arrive too. */
+		if (emailr->sub_boundary != NULL) {
+			size_t sub_len;
+
+			M_parser_mark_rewind(emailr->parser);
+			M_parser_mark(emailr->parser);
+			sub_len     = M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->sub_boundary, emailr->sub_boundary_len, M_FALSE, NULL);
+			consume_len = M_MIN(consume_len, sub_len);
+		}
+
+		/* A line end is only data when it isn't followed by a boundary. Leave it until we know. */
+		M_parser_mark_rewind(emailr->parser);
+		if (consume_len > 0 && M_parser_peek(emailr->parser)[consume_len-1] == '\n')
+			consume_len--;
+		if (consume_len > 0 && M_parser_peek(emailr->parser)[consume_len-1] == '\r')
+			consume_len--;
+		M_parser_mark(emailr->parser);
+	}
 	data_len    = consume_len;
 	M_parser_mark_rewind(emailr->parser);
 
 	/* The data and boundary are separated by a \r\n which is not part of the data.
 	 *
 	 * While we should treat a missing \r\n as an error, we're going to be lenient and allow it. */
-	if (consume_len >= 2) {
+	if (found && consume_len >= 2) {
 		M_parser_mark(emailr->parser);
 		M_parser_consume(emailr->parser, consume_len-2);
 		if (M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE)) {
-- 
2.43.0


From 0e4b1a875e87a0c42674bd2eb4a4cdce290272bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:35 +0000
Subject: [PATCH 276/277] fix: email reader waits for the boundary after a sub
 multipart

---
 formats/email/m_email_reader.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/formats/email/m_email_reader.c b/formats/email/m_email_reader.c
index 58702de..81c05a9 100644
--- a/formats/email/m_email_reader.c
+++ b/formats/email/m_email_reader.c
@@ -641,12 +641,15 @@ static M_state_machine_status_t state_multipart_check_end(void *data, M_uint64 *
 
 	if (emailr->is_sub_boundary_match && M_parser_compare_str(emailr->parser, "--", 2, M_FALSE)) {
 		M_bool found;
-		emailr->is_sub_boundary_match = M_FALSE;
+		M_parser_mark(emailr->parser);
 		M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->boundary, emailr->boundary_len, M_TRUE, &found);
-		if (!found) {
-			emailr->res = M_EMAIL_ERROR_MULTIPART_INVALID;
-			return M_STATE_MACHINE_STATUS_ERROR_STATE;
+		if (!found || M_parser_len(emailr->parser) < 2) {
+			/* The next outer boundary hasn't fully arrived yet. */
+			M_parser_mark_rewind(emailr->parser);
+			return M_STATE_MACHINE_STATUS_WAIT;
 		}
+		M_parser_mark_clear(emailr->parser);
+		emailr->is_sub_boundary_match = M_FALSE;
 	}
 
 	if (M_parser_compare_str(emailr->parser, "--", 2, M_FALSE)) {
-- 
2.43.0


From 22fd8f709bb3ad126645ffab6d776907f0e3cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:21 +0000
Subject: [PATCH 277/277] fix: email writer ends the last boundary once, so
 that the epilogue is read back as given

---
 formats/email/m_email_simple_writer.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/formats/email/m_email_simple_writer.c b/formats/email/m_email_simple_writer.c
index 823e419..c0b3517 100644
--- a/formats/email/m_email_simple_writer.c
+++ b/formats/email/m_email_simple_writer.c
@@ -408,9 +408,9 @@ static M_bool M_email_simple_write_add_parts(const M_email_t *email, M_buf_t *bu
 
 	/* Ending boundary. */
 	M_buf_add_str(buf, "--");
-	if (is_processing_attachments) {
+	if (is_processing_attachments || boundary == sub_boundary) {
 		M_buf_add_str(buf, boundary);
-		M_buf_add_str(buf, "--");
+		M_buf_add_str(buf, "--\r\n");
 	} else {
 		M_buf_add_str(buf, sub_boundary);
 		M_buf_add_str(buf, "--\r\n\r\n");
@@ -429,7 +429,6 @@ static M_bool M_email_simple_write_add_epilouge(const M_email_t *email, M_buf_t
 	if (M_str_isempty(const_temp))
 		return M_TRUE;
 
-	M_buf_add_str(buf, "\r\n");
 	M_buf_add_str(buf, const_temp);
 
 	return M_TRUE;
-- 
2.43.0

