/* Demonstrations of the defects found in the original tree (see known-findings.txt).
 * usage: demo <case>; exit 0 = the property holds, non-zero (or a sanitizer abort) = defect. */
#include <sml/sml_file.h>
#include <sml/sml_crc16.h>
#include <sml/sml_transport.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>

static int nlive;
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { nlive++; return __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { if (!p) nlive++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) nlive--; __real_free(p); }

static sml_buffer *mk(const void *p, size_t n, size_t cap) {
	sml_buffer *b = sml_buffer_init(cap);
	memcpy(b->buffer, p, n);
	return b;
}
#define CASE(s) if (!strcmp(argv[1], s))
static void *osp(sml_buffer *b) { return sml_octet_string_parse(b); }
static void osf(void *p) { sml_octet_string_free(p); }
static void osw(void *p, sml_buffer *b) { sml_octet_string_write(p, b); }

int main(int argc, char **argv) {
	if (argc < 2) return 99;
	CASE("tl_overflow") {
		sml_buffer *b = mk("\xf8\x80\x80\x80\x80\x80\x80\x00", 8, 32);
		sml_list_parse(b);
		return !sml_buf_has_errors(b);
	}
	CASE("tl_list16") {
		sml_buffer *b = sml_buffer_init(512);
		sml_sequence *s = sml_sequence_init(osf), *r;
		for (int i = 0; i < 16; i++) sml_sequence_add(s, sml_octet_string_init((unsigned char *)"x", 1));
		sml_sequence_write(s, b, osw);
		b->cursor = 0;
		r = sml_sequence_parse(b, osp, osf);
		return sml_buf_has_errors(b) || !r || r->elems_len != 16;
	}
	CASE("tl_254") {
		unsigned char x[254]; memset(x, 7, sizeof x);
		sml_buffer *b = sml_buffer_init(512);
		sml_octet_string_write(sml_octet_string_init(x, 254), b);
		b->cursor = 0;
		octet_string *o = sml_octet_string_parse(b);
		return sml_buf_has_errors(b) || !o || o->len != 254;
	}
	CASE("tl_dirty") {
		unsigned char x[100]; memset(x, 7, sizeof x);
		sml_buffer *b = sml_buffer_init(512);
		memset(b->buffer, 0xff, 512);
		sml_octet_string_write(sml_octet_string_init(x, 100), b);
		b->cursor = 0;
		octet_string *o = sml_octet_string_parse(b);
		return sml_buf_has_errors(b) || !o || o->len != 100;
	}
	CASE("num_zero") {
		sml_buffer *b = mk("\x51\x81\x01", 3, 32);
		i8 *n = sml_i8_parse(b);
		return n && *n != 0;
	}
	CASE("value_wide") {
		sml_buffer *b = mk("\x6a\x01\x02\x03\x04\x05\x06\x07\x08\x09", 10, 32);
		sml_value *v = sml_value_parse(b);
		return v != NULL && (v->type & 0x70) != 0x60;
	}
	CASE("time_default") {
		sml_buffer *b = mk("\x72\x62\x01\x52\x05\x01", 6, 32);
		sml_time *t = sml_time_parse(b);
		return t == NULL && !sml_buf_has_errors(b);
	}
	CASE("time_list") {
		sml_buffer *b = mk("\x72\x62\x01\x71\x62\x01\x52\x01\x52\x01", 10, 32);
		sml_time_parse(b);
		return !sml_buf_has_errors(b);
	}
	CASE("body_tag") {
		unsigned char m[] = "\x76\x01\x01\x01\x72\x01\x63\x00\x00\x00";
		u16 c = sml_crc16_calculate(m, 6); m[7] = c >> 8; m[8] = c;
		sml_file *f = sml_file_parse(m, 10);
		return f->messages_len && (!f->messages[0]->message_body || !f->messages[0]->message_body->tag);
	}
	CASE("file_many") {
		unsigned char m[] = "\x76\x01\x01\x01\x72\x63\x02\x00\x71\x01\x63\x00\x00\x00";
		u16 c = sml_crc16_calculate(m, 10); m[11] = c >> 8; m[12] = c;
		unsigned char *all = malloc(14 * 33000);
		for (int i = 0; i < 33000; i++) memcpy(all + 14 * i, m, 14);
		sml_file *f = sml_file_parse(all, 14 * 33000);
		int r = f->messages_len != 33000;
		sml_file_free(f);
		return r;
	}
	CASE("objlist") {
		unsigned char m[] = "\x79\x01\x01\x01\x01\x01\x01\x01\x73\x02\x61\x02\x62\x02\x63\x01\x00";
		sml_buffer *b = mk(m, sizeof m, 64), *o = sml_buffer_init(64);
		sml_get_profile_pack_request *r = sml_get_profile_pack_request_parse(b);
		if (!r) return 2;
		sml_get_profile_pack_request_write(r, o);
		return o->cursor != 16 || memcmp(o->buffer, m, 16);
	}
	CASE("path_empty") {
		sml_buffer *o = sml_buffer_init(64);
		sml_tree_path_write(sml_tree_path_init(), o);
		return o->cursor == 0;
	}
	CASE("dzg") {
		unsigned char m[] = "\x72\x77\x07\x01\x00\x60\x01\x00\xff\x01\x01\x01\x01\x0b\x0a\x01\x44\x5a\x47\x00\x02\x80\xde\x81\x01"
			"\x77\x07\x01\x00\x10\x07\x00\xff\x01\x01\x01\x01\x03\x41\x42\x01\x00";
		sml_buffer *b = mk(m, sizeof m, 128);
		sml_list *l = sml_list_parse(b);
		if (!l || !l->next) return 2;
		int bad = l->next->value->type != SML_TYPE_OCTET_STRING;
		sml_list_free(l); sml_buffer_free(b);
		return bad || nlive;
	}
	CASE("msg_leak") {
		sml_message *m = sml_message_init();
		sml_close_request *c = sml_close_request_init();
		sml_buffer *o = sml_buffer_init(256);
		m->message_body = sml_message_body_init(SML_MESSAGE_CLOSE_REQUEST, c);
		sml_message_write(m, o); sml_message_write(m, o);
		sml_message_free(m); sml_buffer_free(o);
		return nlive;
	}
	CASE("hex_odd") {
		octet_string *o = sml_octet_string_init((unsigned char *)"a", 1);
		return sml_octet_string_cmp_with_hex(o, "6") == 0;
	}
	CASE("hex_empty") {
		octet_string *o = sml_octet_string_init((unsigned char *)"a", 1);
		return sml_octet_string_cmp_with_hex(o, "") == 0;
	}
	CASE("resync") {
		int p[2]; if (pipe(p)) return 9;
		unsigned char s[] = "\x1b\x1b\x1b\x1b\x1b\x01\x01\x01\x01" "abcd" "\x1b\x1b\x1b\x1b\x1a\x00\x00\x00", o[64];
		if (write(p[1], s, sizeof s - 1) < 0) return 9;
		close(p[1]);
		return sml_transport_read(p[0], o, sizeof o) != 20;
	}
	CASE("read_zero") {
		unsigned char o[1];
		return sml_transport_read(0, o, 0) != 0;
	}
	CASE("depth") {
		int n = 400000;
		unsigned char *x = malloc(n * 4 + 16), *q = x;
		for (int i = 0; i < n; i++) { memcpy(q, "\x73\x01\x01\x71", 4); q += 4; }
		memset(q, 1, 16);
		sml_buffer *b = mk(x, n * 4 + 16, n * 4 + 16);
		sml_tree *t = sml_tree_parse(b);
		sml_tree_free(t);
		return 0;
	}
	CASE("ppv_err") {
		sml_buffer *b = mk("\x72\x62\x01\x00\x00", 4, 4);
		sml_proc_par_value *p = sml_proc_par_value_parse(b);
		return sml_buf_has_errors(b) && p != NULL;
	}
	CASE("seq_err") {
		sml_buffer *b = mk("\xf0", 1, 1);
		sml_sequence *p = sml_sequence_parse(b, osp, osf);
		return sml_buf_has_errors(b) && p != NULL;
	}
	return 98;
}
