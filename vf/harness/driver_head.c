/* Runs cases against the real library and prints what it did, one line per case. */
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/time.h>
#include <unistd.h>
#include <sml/sml_file.h>
#include <sml/sml_message.h>
#include <sml/sml_transport.h>
#include <sml/sml_crc16.h>
#include <sml/sml_value.h>

/* ---- the library's allocations (its sources are compiled with malloc=vf_malloc and so on) */
static long live;
static unsigned fillseed;
static void fill(unsigned char *p, size_t a, size_t b) {
	for (; a < b; a++)
		p[a] = fillseed == 0 ? 0 : fillseed == 1 ? 0xa5 : (unsigned char)(0x31 + a * 7 + fillseed);
}
void *vf_malloc(size_t n) { void *p = malloc(n); if (p) { live++; fill(p, 0, n); } return p; }
void *vf_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p) live++; return p; }
void *vf_realloc(void *q, size_t n) {
	size_t o = q ? malloc_usable_size(q) : 0;
	void *p;
	if (q && n == 0) { free(q); live--; return NULL; }
	p = realloc(q, n);
	if (p && !q) live++;
	if (p && n > o) fill(p, o, n);
	return p;
}
void vf_free(void *p) { if (p) live--; free(p); }

/* ---- scripted input and output */
static unsigned char *in; static size_t inlen, inpos; static unsigned char *script; static size_t slen, spos;
static unsigned char *outb; static size_t outlen; static long outcalls; static long outmode;
ssize_t vf_read(int fd, void *b, size_t n) {
	size_t k;
	(void)fd;
	if (spos < slen) {
		unsigned char c = script[spos++];
		if (c == 0xff) { errno = EINTR; return -1; }
		if (c == 0xfe) { errno = EAGAIN; return -1; }
		if (c == 0xfd) { errno = EIO; return -1; }
		k = c ? c : 1;
		if (spos == slen) spos = 0;
	} else k = n;
	if (k > n) k = n;
	if (k > inlen - inpos) k = inlen - inpos;
	memcpy(b, in + inpos, k);
	inpos += k;
	return (ssize_t)k;
}
int vf_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
	(void)n; (void)r; (void)w; (void)e; (void)t;
	return 1;
}
ssize_t vf_write(int fd, const void *b, size_t n) {
	(void)fd;
	outcalls++;
	if (outmode == 1) { errno = EIO; return -1; }
	if (outmode == 2) n = n / 2;
	if (outmode == 3) n = n ? n - 1 : 0;
	outb = realloc(outb, outlen + n + 1);
	memcpy(outb + outlen, b, n);
	outlen += n;
	return (ssize_t)n;
}

/* ---- printing */
static FILE *O;
static void hex(const unsigned char *p, size_t n) { size_t i; for (i = 0; i < n; i++) fprintf(O, "%02x", p[i]); }
static void d_num(const unsigned char *p, int w) {
	int i;
	if (!p) { fputc('-', O); return; }
	for (i = w - 1; i >= 0; i--) fprintf(O, "%02x", p[i]);
}
static void d_Oct(octet_string *s) {
	if (!s) { fputc('-', O); return; }
	fputc('o', O);
	if (s->len > 0) hex(s->str, s->len);
}
static void d_Status(sml_status *s) {
	if (!s) { fputc('-', O); return; }
	fprintf(O, "t%02x:", s->type);
	d_num((unsigned char *)s->data.status8, s->type & 15);
}
static void d_Value(sml_value *s) {
	if (!s) { fputc('-', O); return; }
	fprintf(O, "t%02x:", s->type);
	switch (s->type & 0x70) {
	case 0x00: d_Oct(s->data.bytes); break;
	case 0x40: d_num((unsigned char *)s->data.boolean, 1); break;
	default: d_num((unsigned char *)s->data.uint8, s->type & 15);
	}
}
static void d_Time(sml_time *s) {
	if (!s) { fputc('-', O); return; }
	fputc('{', O); d_num((unsigned char *)s->tag, 1); fputc(',', O);
	d_num((unsigned char *)s->data.timestamp, 4); fputc('}', O);
}
static void d_TreePath(sml_tree_path *s) {
	int i;
	if (!s) { fputc('-', O); return; }
	fputs("{[", O);
	for (i = 0; i < s->path_entries_len; i++) { if (i) fputc(',', O); d_Oct(s->path_entries[i]); }
	fputs("]}", O);
}
typedef void (*dumper)(void *);
static void d_seq(sml_sequence *s, dumper d) {
	int i;
	if (!s) { fputc('-', O); return; }
	fputc('[', O);
	for (i = 0; i < s->elems_len; i++) { if (i) fputc(',', O); d(s->elems[i]); }
	fputc(']', O);
}
static void d_ObjList(sml_obj_req_entry_list *l) {
	int first = 1;
	if (!l) { fputc('-', O); return; }
	fputc('[', O);
	for (; l; l = l->next) { if (!first) fputc(',', O); first = 0; fputc('{', O); d_Oct(l->object_list_entry); fputc('}', O); }
	fputc(']', O);
}
static void d_ListEntry(sml_list *l);
static void d_List(sml_list *l) {
	int first = 1;
	if (!l) { fputc('-', O); return; }
	fputc('[', O);
	for (; l; l = l->next) { if (!first) fputc(',', O); first = 0; d_ListEntry(l); }
	fputc(']', O);
}
static void d_Period(sml_period_entry *);
static void d_Tupel(sml_tupel_entry *);
static void d_PPV(sml_proc_par_value *p) {
	if (!p) { fputc('-', O); return; }
	fputc('{', O); d_num(p->tag, 1); fputc(',', O);
	switch (*p->tag) {
	case 1: d_Value(p->data.value); break;
	case 2: d_Period(p->data.period_entry); break;
	case 3: d_Tupel(p->data.tupel_entry); break;
	case 4: d_Time(p->data.time); break;
	}
	fputc('}', O);
}
static void d_Tree(sml_tree *t) {
	int i;
	if (!t) { fputc('-', O); return; }
	fputc('{', O); d_Oct(t->parameter_name); fputc(',', O); d_PPV(t->parameter_value); fputs(",[", O);
	for (i = 0; i < t->child_list_len; i++) { if (i) fputc(',', O); d_Tree(t->child_list[i]); }
	fputs("]}", O);
}
