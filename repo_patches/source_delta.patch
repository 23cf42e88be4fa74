From 5668903db179ed3c539d27d5738e26b1d0764c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 01/15] fix: reject length fields that do not fit into an int

A type-length field of eight or more bytes shifted bits out of the signed
length (undefined behaviour) and could yield a negative number of list
elements, which every caller took for an empty list without an error.
---
 sml/src/sml_shared.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index d7cad9d..c749230 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -21,7 +21,7 @@
 #include <string.h>
 
 int sml_buf_get_next_length(sml_buffer *buf) {
-	int length = 0;
+	int length = 0, tl_bytes = 0;
 
 	// current byte available?
 	if ((buf->cursor + 1) > buf->buffer_len) {
@@ -33,6 +33,11 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 
 	for (; buf->cursor < buf->buffer_len;) {
 		byte = sml_buf_get_current_byte(buf);
+		if (++tl_bytes >= (int)sizeof(int) * 2) {
+			// the length does not fit into an int
+			buf->error = 1;
+			return -1;
+		}
 		length <<= 4;
 		length |= (byte & SML_LENGTH_FIELD);
 
-- 
2.43.0


From f1a436edea329ff553cc0add971a6cb66f2f450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 02/15] fix: encode multi-byte type-length fields correctly

The length of a list is its number of elements and does not include the
type-length bytes, so lists of 16 or more elements were written with a wrong
count. When the added type-length bytes carried into one more digit, the first
digit was lost. Further type-length bytes were OR-ed into whatever the buffer
held before.
---
 sml/src/sml_shared.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index c749230..8567da2 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -73,7 +73,7 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 		int mask_pos = (sizeof(unsigned int) * 2) - 1;
 
 		// the 4 most significant bits of l (1111 0000 0000 ...)
-		unsigned int mask = 0xF0 << (8 * (sizeof(unsigned int) - 1));
+		unsigned int mask = 0xF0U << (8 * (sizeof(unsigned int) - 1));
 
 		// select the next 4 most significant bits with a bit set until there
 		// is something
@@ -82,13 +82,16 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 			mask_pos--;
 		}
 
-		l += mask_pos; // for every TL-field
+		if (type != SML_TYPE_LIST) {
+			l += mask_pos; // for every TL-field
 
-		if ((0x0F << (4 * (mask_pos + 1))) & l) {
-			// for the rare case that the addition of the number of TL-fields
-			// result in another TL-field.
-			mask_pos++;
-			l++;
+			if (mask_pos < 7 && ((0x0FU << (4 * (mask_pos + 1))) & l)) {
+				// for the rare case that the addition of the number of TL-fields
+				// result in another TL-field.
+				mask_pos++;
+				mask <<= 4;
+				l++;
+			}
 		}
 
 		// copy 4 bits of the number to the buffer
@@ -98,6 +101,7 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 			mask >>= 4;
 			mask_pos--;
 			buf->cursor++;
+			buf->buffer[buf->cursor] = 0;
 		}
 	}
 
-- 
2.43.0


From ce10d77fc64abe3f3ac459d0e7a675692c7e2907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 03/15] fix: do not take the sign of an empty integer from the
 next field

---
 sml/src/sml_number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index 706a4c6..dd6c383 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -107,7 +107,7 @@ void *sml_number_parse(sml_buffer *buf, unsigned char type, int max_size) {
 	}
 
 	b = sml_buf_get_current_byte(buf);
-	if (type == SML_TYPE_INTEGER && (b & 128)) {
+	if (type == SML_TYPE_INTEGER && l > 0 && (b & 128)) {
 		negative_int = 1;
 	}
 
-- 
2.43.0


From 7af7430acdc4da465cdc9af69047c90a988b1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 04/15] fix: reject values and states wider than 64 bits

---
 sml/src/sml_status.c | 4 ++++
 sml/src/sml_value.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sml/src/sml_status.c b/sml/src/sml_status.c
index 11939da..0af242d 100644
--- a/sml/src/sml_status.c
+++ b/sml/src/sml_status.c
@@ -42,6 +42,10 @@ sml_status *sml_status_parse(sml_buffer *buf) {
 		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
 			max <<= 1;
 		}
+		if (max > (int)SML_TYPE_NUMBER_64) {
+			buf->error = 1;
+			break;
+		}
 
 		status->data.status8 = sml_number_parse(buf, type, max);
 		status->type |= max;
diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index fab9d0e..b57921e 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -45,6 +45,10 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
 			max <<= 1;
 		}
+		if (max > (int)SML_TYPE_NUMBER_64) {
+			buf->error = 1;
+			break;
+		}
 
 		value->data.uint8 = sml_number_parse(buf, type, max);
 		value->type |= max;
-- 
2.43.0


From cd8e686fdeac18f8d6be08f0060b13d36549f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 05/15] fix: report malformed time values as errors

---
 sml/src/sml_time.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index 6e7beba..dd9af56 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -70,7 +70,10 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 		// Some meters (e.g. FROETEC Multiflex ZG22) giving not one uint32
 		// as timestamp, but a list of 3 values.
 		// Ignoring these values, so that parsing does not fail.
-		sml_buf_get_next_length(buf); // should we check the length here?
+		if (sml_buf_get_next_length(buf) != 3) {
+			buf->error = 1;
+			goto error;
+		}
 		u32 *t1 = sml_u32_parse(buf);
 		if (sml_buf_has_errors(buf)) {
 			if (t1)
@@ -107,6 +110,7 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 			sml_number_free(t3);
 		break;
 	default:
+		buf->error = 1;
 		goto error;
 	}
 
-- 
2.43.0


From d18ed79f81309e46ab199b471eea95b321e83cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 06/15] fix: report a message body without a tag as an error

Such a message was accepted with a NULL body, which sml_file_print() and the
examples dereference. A body whose content is malformed is no longer returned
either.
---
 sml/src/sml_message.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index de91085..97ba1e7 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -217,9 +217,15 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 		break;
 	}
 
+	if (sml_buf_has_errors(buf)) {
+		sml_message_body_free(msg_body);
+		return NULL;
+	}
+
 	return msg_body;
 
 error:
+	buf->error = 1;
 	free(msg_body);
 	return NULL;
 }
-- 
2.43.0


From acc9da9000ea48fe7988d3f5f02922a0d794ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 07/15] fix: do not overflow the number of messages of a file

---
 sml/include/sml/sml_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/include/sml/sml_file.h b/sml/include/sml/sml_file.h
index d864d40..b6cd76f 100644
--- a/sml/include/sml/sml_file.h
+++ b/sml/include/sml/sml_file.h
@@ -30,7 +30,7 @@ extern "C" {
 // a SML file consist of multiple SML messages
 typedef struct {
 	sml_message **messages;
-	short messages_len;
+	int messages_len;
 	sml_buffer *buf;
 } sml_file;
 
-- 
2.43.0


From 33e0b5fddbb483486406485f281e3fc6d4947281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 08/15] fix: write the last entry of the object list of a
 profile pack request

---
 sml/src/sml_get_profile_pack_request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_get_profile_pack_request.c b/sml/src/sml_get_profile_pack_request.c
index 6729b08..5020037 100644
--- a/sml/src/sml_get_profile_pack_request.c
+++ b/sml/src/sml_get_profile_pack_request.c
@@ -56,7 +56,7 @@ void sml_get_profile_pack_request_write(sml_get_profile_pack_request *msg, sml_b
 			len++;
 		}
 		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, len);
-		for (l = msg->object_list; l->next; l = l->next) {
+		for (l = msg->object_list; l; l = l->next) {
 			sml_obj_req_entry_write(l->object_list_entry, buf);
 		}
 	} else {
-- 
2.43.0


From 42fa4a3d7514d0668d5a86cc94485e1ad4bcb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 09/15] fix: write an empty tree path as an empty list

---
 sml/src/sml_tree.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index e54561e..2cc1a54 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -73,13 +73,11 @@ void sml_tree_path_write(sml_tree_path *tree_path, sml_buffer *buf) {
 		return;
 	}
 
-	if (tree_path->path_entries && tree_path->path_entries_len > 0) {
-		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
+	sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
 
-		int i;
-		for (i = 0; i < tree_path->path_entries_len; i++) {
-			sml_octet_string_write(tree_path->path_entries[i], buf);
-		}
+	int i;
+	for (i = 0; i < tree_path->path_entries_len; i++) {
+		sml_octet_string_write(tree_path->path_entries[i], buf);
 	}
 }
 
-- 
2.43.0


From 115364a6457b788ae6dac9886c50a493c8f1d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 10/15] fix: apply the DZG DVS74 workaround to integers only

An octet string or boolean was relabelled as an unsigned number, which leaked
its contents and made sml_value_to_double() read a structure as a number.
---
 sml/src/sml_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_list.c b/sml/src/sml_list.c
index 3662d38..5c3a91a 100644
--- a/sml/src/sml_list.c
+++ b/sml/src/sml_list.c
@@ -251,7 +251,7 @@ sml_list *sml_list_entry_parse(sml_buffer *buf, struct workarounds *workarounds)
 	} else if (workarounds->old_dzg_dvs74 && l->obj_name &&
 			   l->obj_name->len == sizeof(dzg_power_name) &&
 			   memcmp(l->obj_name->str, dzg_power_name, sizeof(dzg_power_name)) == 0 && l->value &&
-			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {
+			   (value_tl & SML_TYPE_FIELD) == SML_TYPE_INTEGER && (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {
 		l->value->type &= ~SML_TYPE_FIELD;
 		l->value->type |= SML_TYPE_UNSIGNED;
 	}
-- 
2.43.0


From 0d98eb237621f8d70f6ae78bfbb52a4ee89e588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 11/15] fix: do not leak the previous checksum when a message
 is written again

---
 sml/src/sml_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 97ba1e7..c44162e 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -135,6 +135,7 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u8_write(msg->abort_on_error, buf);
 	sml_message_body_write(msg->message_body, buf);
 
+	sml_number_free(msg->crc);
 	msg->crc =
 		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), buf->cursor - msg_start));
 	sml_u16_write(msg->crc, buf);
-- 
2.43.0


From c300d447130a25ec48d0866b12b34b9a7a830394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 12/15] fix: handle empty and odd-length hex strings

---
 sml/src/sml_octet_string.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index f7db408..4440238 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -49,7 +49,7 @@ octet_string *sml_octet_string_init_from_hex(char *str) {
 	if (len % 2 != 0) {
 		return NULL;
 	}
-	unsigned char bytes[len / 2];
+	unsigned char bytes[len / 2 + 1];
 	for (i = 0; i < (len / 2); i++) {
 		bytes[i] = c2ptoi(&(str[i * 2]));
 	}
@@ -131,6 +131,9 @@ int sml_octet_string_cmp(octet_string *s1, octet_string *s2) {
 
 int sml_octet_string_cmp_with_hex(octet_string *str, char *hex) {
 	octet_string *hstr = sml_octet_string_init_from_hex(hex);
+	if (!hstr) {
+		return -1;
+	}
 	if (str->len != hstr->len) {
 		sml_octet_string_free(hstr);
 		return -1;
-- 
2.43.0


From c720fed2ad2d96f748055f7ab22a25b6786e3e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 13/15] fix: find a start sequence that follows an escape byte

---
 sml/src/sml_transport.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 17f868c..04533a6 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -62,16 +62,16 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	FD_ZERO(&readfds);
 	FD_SET(fd, &readfds);
 
-	unsigned char buf[max_len];
-	memset(buf, 0, max_len);
-	unsigned int len = 0;
-
 	if (max_len < 8) {
 		// prevent buffer overflow
 		fprintf(stderr, "libsml: error: sml_transport_read(): passed buffer too small!\n");
 		return 0;
 	}
 
+	unsigned char buf[max_len];
+	memset(buf, 0, max_len);
+	unsigned int len = 0;
+
 	while (len < 8) {
 		if (sml_read(fd, &readfds, &(buf[len]), 1) == 0) {
 			return 0;
@@ -79,6 +79,9 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 		if ((buf[len] == 0x1b && len < 4) || (buf[len] == 0x01 && len >= 4)) {
 			len++;
+		} else if (buf[len] == 0x1b) {
+			// may belong to the start sequence that follows
+			len = (len == 4) ? 4 : 1;
 		} else {
 			len = 0;
 		}
-- 
2.43.0


From 9dabad20f3b1e4e872d18d9d2e28ab09b9440926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 14/15] fix: limit the depth of parsed trees

A few kilobytes of nested list headers exhausted the stack.
---
 sml/src/sml_tree.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index 2cc1a54..20139e1 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -106,11 +106,19 @@ sml_tree *sml_tree_init() {
 	return tree;
 }
 
-sml_tree *sml_tree_parse(sml_buffer *buf) {
+// limits the recursion, a tree must not exhaust the stack
+#define SML_TREE_MAX_DEPTH 256
+
+static sml_tree *sml_tree_parse_(sml_buffer *buf, int depth) {
 	if (sml_buf_optional_is_skipped(buf)) {
 		return NULL;
 	}
 
+	if (depth <= 0) {
+		buf->error = 1;
+		return NULL;
+	}
+
 	sml_tree *tree = sml_tree_init();
 
 	if (sml_buf_get_next_type(buf) != SML_TYPE_LIST) {
@@ -140,7 +148,7 @@ sml_tree *sml_tree_parse(sml_buffer *buf) {
 		sml_tree *c;
 		int elems;
 		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
-			c = sml_tree_parse(buf);
+			c = sml_tree_parse_(buf, depth - 1);
 			if (sml_buf_has_errors(buf)) {
 				if (c)
 					sml_tree_free(c);
@@ -159,6 +167,8 @@ error:
 	return NULL;
 }
 
+sml_tree *sml_tree_parse(sml_buffer *buf) { return sml_tree_parse_(buf, SML_TREE_MAX_DEPTH); }
+
 void sml_tree_add_tree(sml_tree *base_tree, sml_tree *tree) {
 	base_tree->child_list_len++;
 	base_tree->child_list =
-- 
2.43.0


From e1199fe2c06b7f1fc8b0effe4224040126dc0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 15/15] fix: return no object when a nested element is
 malformed

A choice without a tag was not reported as an error, and lists whose length
field is truncated were returned as empty lists along with the error.
---
 sml/src/sml_list.c | 3 +++
 sml/src/sml_tree.c | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/sml/src/sml_list.c b/sml/src/sml_list.c
index 5c3a91a..c538a3b 100644
--- a/sml/src/sml_list.c
+++ b/sml/src/sml_list.c
@@ -49,6 +49,9 @@ sml_sequence *sml_sequence_parse(sml_buffer *buf, void *(*elem_parse)(sml_buffer
 		}
 		sml_sequence_add(seq, p);
 	}
+	if (sml_buf_has_errors(buf)) {
+		goto haserrors;
+	}
 
 	return seq;
 
diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index 20139e1..f4ce1fc 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -50,6 +50,8 @@ sml_tree_path *sml_tree_path_parse(sml_buffer *buf) {
 			sml_tree_path_add_path_entry(tree_path, s);
 		}
 	}
+	if (sml_buf_has_errors(buf))
+		goto error;
 
 	return tree_path;
 
@@ -159,6 +161,8 @@ static sml_tree *sml_tree_parse_(sml_buffer *buf, int depth) {
 			}
 		}
 	}
+	if (sml_buf_has_errors(buf))
+		goto error;
 
 	return tree;
 
@@ -260,9 +264,13 @@ sml_proc_par_value *sml_proc_par_value_parse(sml_buffer *buf) {
 		goto error;
 	}
 
+	if (sml_buf_has_errors(buf))
+		goto error;
+
 	return ppv;
 
 error:
+	buf->error = 1;
 	sml_proc_par_value_free(ppv);
 	return NULL;
 }
-- 
2.43.0

