static void d_Message(sml_message *m) {
	if (!m) { fputc('-', O); return; }
	fputc('{', O); d_Oct(m->transaction_id); fputc(',', O); d_num(m->group_id, 1); fputc(',', O);
	d_num(m->abort_on_error, 1); fputc(',', O); d_Body(m->message_body); fputc('}', O);
}

static const unsigned char *A; static size_t AN; /* the case's remaining bytes */
static unsigned long arg(void) {
	unsigned long v = 0; int i;
	for (i = 0; i < 4; i++) v |= (unsigned long)A[i] << (8 * i);
	A += 4; AN -= 4;
	return v;
}
static const unsigned char *blob(size_t *n) { const unsigned char *p; *n = arg(); p = A; A += *n; AN -= *n; return p; }

static sml_buffer *mkbuf(const unsigned char *p, size_t n) {
	sml_buffer *b = sml_buffer_init(n);
	if (n) memcpy(b->buffer, p, n);
	return b;
}

/* kind pos pending bytes */
static void op_parse(void) {
	unsigned long k = arg(), pos = arg(), pend = arg();
	size_t n; const unsigned char *p = blob(&n);
	long l0 = live;
	sml_buffer *b = mkbuf(p, n);
	void *o;
	b->cursor = pos;
	b->error = (int)pend;
	o = K[k].parse(b);
	fprintf(O, "e%d ", b->error != 0);
	if (b->error) {
		fprintf(O, "c%d ", b->cursor >= pos && b->cursor <= n);
		if (pend) fputc('?', O); else K[k].dump(o);
	} else { fprintf(O, "c%zu ", b->cursor); K[k].dump(o); }
	fprintf(O, " i%d", n == 0 || memcmp(b->buffer, p, n) == 0);
	if (o) K[k].free(o);
	sml_buffer_free(b);
	fprintf(O, " l%ld", live - l0);
}

/* kind prefix room extra bytes: parse, write, print, parse again */
static void op_write(void) {
	unsigned long k = arg(), pre = arg(), room = arg(), extra = arg(), i, bad = 0;
	size_t n; const unsigned char *p = blob(&n);
	long l0 = live;
	sml_buffer *b = mkbuf(p, n), *w, *r;
	void *o = K[k].parse(b), *o2;
	if (b->error) fputs("NOPARSE ", O);
	w = sml_buffer_init(pre + room + extra);
	for (i = 0; i < pre + room + extra; i++) w->buffer[i] = (unsigned char)(0x5b + i * 13 + (i >> 3) * fillseed);
	w->cursor = pre;
	K[k].write(o, w);
	fprintf(O, "c%zu ", w->cursor);
	if (w->cursor >= pre && w->cursor <= pre + room + extra) hex(w->buffer + pre, w->cursor - pre);
	for (i = 0; i < pre + room + extra; i++)
		if ((i < pre || i >= w->cursor) && w->buffer[i] != (unsigned char)(0x5b + i * 13 + (i >> 3) * fillseed)) bad++;
	fprintf(O, " u%lu e%d ", bad, w->error != 0);
	K[k].dump(o);
	/* write once more: same bytes */
	i = w->cursor;
	w->cursor = pre;
	K[k].write(o, w);
	fprintf(O, " a%d ", w->cursor == i);
	if (w->cursor >= pre && w->cursor <= pre + room + extra) {
		/* one byte after an octet string or number is required */
		r = sml_buffer_init(w->cursor - pre + 1);
		memcpy(r->buffer, w->buffer + pre, w->cursor - pre);
		o2 = K[k].parse(r);
		fprintf(O, "e%d ", r->error != 0);
		if (!r->error) { fprintf(O, "c%zu ", r->cursor); K[k].dump(o2); }
		if (o2) K[k].free(o2);
		sml_buffer_free(r);
	}
	if (o) K[k].free(o);
	sml_buffer_free(w);
	sml_buffer_free(b);
	fprintf(O, " l%ld", live - l0);
}

static void op_file(void) {
	size_t n; const unsigned char *p = blob(&n);
	long l0 = live; int i;
	unsigned char *q = malloc(n ? n : 1);
	sml_file *f;
	if (n) memcpy(q, p, n);
	f = sml_file_parse(q, n);
	fprintf(O, "n%d [", f->messages_len);
	for (i = 0; i < f->messages_len; i++) { if (i) fputc(',', O); d_Message(f->messages[i]); }
	fprintf(O, "] i%d", n == 0 || memcmp(q, p, n) == 0);
	sml_file_free(f);
	free(q);
	fprintf(O, " l%ld", live - l0);
}

/* mode room bytes: parse a file, write its messages with the transport */
static void op_transport_write(void) {
	unsigned long mode = arg(), room = arg(), i;
	size_t n; const unsigned char *p = blob(&n);
	long l0 = live; int r;
	unsigned char *q = malloc(n ? n : 1);
	sml_file *f;
	if (n) memcpy(q, p, n);
	f = sml_file_parse(q, n);
	sml_buffer_free(f->buf);
	f->buf = sml_buffer_init(room);
	for (i = 0; i < room; i++) f->buf->buffer[i] = (unsigned char)(0x5b + i * 13 + fillseed);
	f->buf->cursor = room / 2;
	outlen = 0; outcalls = 0; outmode = (long)mode;
	r = sml_transport_write(7, f);
	fprintf(O, "r%d k%ld ", r, outcalls);
	hex(outb, outlen);
	fprintf(O, " c%zu", f->buf->cursor);
	sml_file_free(f);
	free(q);
	fprintf(O, " l%ld", live - l0);
}

static void op_crc(void) {
	size_t n; const unsigned char *p = blob(&n);
	unsigned char *q = malloc(n ? n : 1);
	if (n) memcpy(q, p, n);
	fprintf(O, "%04x %04x", sml_crc16_calculate(q, (int)n), sml_crc16kermit_calculate(q, (int)n));
	fprintf(O, " i%d", n == 0 || memcmp(q, p, n) == 0);
	free(q);
}

static void set_in(void) {
	size_t n; const unsigned char *p = blob(&n);
	in = malloc(n ? n : 1); if (n) memcpy(in, p, n);
	inlen = n; inpos = 0;
	p = blob(&n);
	script = malloc(n ? n : 1); if (n) memcpy(script, p, n);
	slen = n; spos = 0;
}
static void op_read(void) {
	unsigned long max = arg(); size_t r; unsigned char *b;
	set_in();
	b = malloc(max ? max : 1);
	memset(b, 0x77, max);
	r = sml_transport_read(3, b, max);
	fprintf(O, "r%zu ", r);
	if (r <= max) hex(b, r);
	free(b); free(in); free(script);
}
static void on_frame(unsigned char *b, size_t n) { fputc('<', O); hex(b, n); fputc('>', O); }
static void op_listen(void) {
	set_in();
	sml_transport_listen(3, on_frame);
	free(in); free(script);
}
/* kind of helper, then its arguments */
static void op_helper(void) {
	unsigned long h = arg(), a, b; size_t n, m; const unsigned char *p, *q;
	long l0 = live;
	char *z; unsigned char *y; octet_string *s, *t; sml_value *v; double d; uint64_t u; int r;
	switch (h) {
	case 0: /* value_to_double */
		a = arg(); p = blob(&n);
		v = sml_value_init(); v->type = (u8)a;
		y = vf_malloc(n ? n : 1); memcpy(y, p, n);
		v->data.uint8 = y;
		d = sml_value_to_double(v);
		memcpy(&u, &d, 8);
		fprintf(O, "%016llx", (unsigned long long)u);
		vf_free(y); vf_free(v);
		break;
	case 1: /* value_to_strhex */
		a = arg(); p = blob(&n);
		v = sml_value_init();
		y = malloc(n ? n : 1); memcpy(y, p, n);
		v->data.bytes = sml_octet_string_init(y, (int)n);
		free(y);
		z = NULL;
		{ char *res = sml_value_to_strhex(v, &z, a & 1);
		  fprintf(O, "%d ", res == z); if (res) { hex((unsigned char *)res, strlen(res)); fputc('.', O); } else fputc('-', O); }
		vf_free(z);
		sml_value_free(v);
		break;
	case 2: /* init_from_hex */
		p = blob(&n); z = malloc(n + 1); memcpy(z, p, n); z[n] = 0;
		s = sml_octet_string_init_from_hex(z);
		d_Oct(s);
		if (s) fprintf(O, " %d", s->len);
		sml_octet_string_free(s); free(z);
		break;
	case 3: case 4: /* cmp, cmp with hex */
		p = blob(&n); q = blob(&m);
		y = malloc(n ? n : 1); memcpy(y, p, n); s = sml_octet_string_init(y, (int)n); free(y);
		if (h == 3) {
			y = malloc(m ? m : 1); memcpy(y, q, m); t = sml_octet_string_init(y, (int)m); free(y);
			r = sml_octet_string_cmp(s, t);
			sml_octet_string_free(t);
		} else {
			z = malloc(m + 1); memcpy(z, q, m); z[m] = 0;
			r = sml_octet_string_cmp_with_hex(s, z); free(z);
		}
		fprintf(O, "%d", r == 0);
		d_Oct(s);
		sml_octet_string_free(s);
		break;
	case 5: /* octet_string_init */
		p = blob(&n); y = malloc(n ? n : 1); memcpy(y, p, n);
		s = sml_octet_string_init(y, (int)n);
		d_Oct(s); fprintf(O, " %d", s->len);
		if (n) memset(y, 0x11, n);
		fputc(' ', O); d_Oct(s);
		free(y); sml_octet_string_free(s);
		break;
	case 6: /* number_init */
		a = arg(); b = arg(); p = blob(&n); memcpy(&u, p, 8);
		y = sml_number_init(u, (unsigned char)b, (int)a);
		d_num(y, (int)a);
		sml_number_free(y);
		break;
	case 7: /* boolean_init, time_init and so on: empty objects */
		a = arg();
		y = sml_boolean_init((u8)a); d_num(y, 1); sml_boolean_free(y);
		v = sml_value_init(); fprintf(O, " %d%d", v->type, v->data.bytes != NULL); sml_value_free(v);
		{ sml_status *q2 = sml_status_init(); fprintf(O, " %d", q2->data.status8 != NULL); sml_status_free(q2); }
		{ sml_time *q2 = sml_time_init(); fputc(' ', O); d_Time(q2); sml_time_free(q2); }
		{ sml_tree *q2 = sml_tree_init(); fputc(' ', O); d_Tree(q2); sml_tree_free(q2); }
		{ sml_tree_path *q2 = sml_tree_path_init(); fputc(' ', O); d_TreePath(q2); sml_tree_path_free(q2); }
		{ sml_list *q2 = sml_list_init(); fputc(' ', O); d_List(q2); sml_list_free(q2); }
		{ sml_file *q2 = sml_file_init(); fprintf(O, " %d %d %zu", q2->messages_len, q2->messages != NULL, q2->buf->buffer_len); sml_file_free(q2); }
		break;
	case 8: /* uuid */
		s = sml_octet_string_generate_uuid();
		fprintf(O, "%d", s->len);
		sml_octet_string_free(s);
		break;
	case 9: /* type-length field: write and read back */
		a = arg(); b = arg();
		{ sml_buffer *w = sml_buffer_init(12); int i, g;
		  for (i = 0; i < 12; i++) w->buffer[i] = (unsigned char)(0x5b + i * 13 + fillseed);
		  w->cursor = 2;
		  sml_buf_set_type_and_length(w, (unsigned)a, (unsigned)b);
		  hex(w->buffer, 2); fputc(' ', O); hex(w->buffer + 2, w->cursor - 2);
		  fputc(' ', O); hex(w->buffer + w->cursor, 12 - w->cursor);
		  i = (int)w->cursor; w->cursor = 2;
		  g = sml_buf_get_next_type(w);
		  fprintf(O, " %d", g);
		  g = sml_buf_get_next_length(w);
		  fprintf(O, " %d %d e%d", g, (int)w->cursor == i, w->error != 0);
		  sml_buffer_free(w); }
		break;
	case 10: /* read a type-length field */
		p = blob(&n);
		{ sml_buffer *w = mkbuf(p, n); int g = sml_buf_get_next_length(w);
		  if (w->error) fprintf(O, "e1 %d", w->cursor <= n); else fprintf(O, "e0 %d %zu", g, w->cursor);
		  sml_buffer_free(w); }
		break;
	case 11: /* writing numbers */
		a = arg(); b = arg(); p = blob(&n); memcpy(&u, p, 8);
		{ sml_buffer *w = sml_buffer_init(12); int i;
		  for (i = 0; i < 12; i++) w->buffer[i] = (unsigned char)(0x5b + i * 13 + fillseed);
		  w->cursor = 1;
		  y = sml_number_init(u, (unsigned char)b, (int)a);
		  sml_number_write(y, (unsigned char)b, (int)a, w);
		  fprintf(O, "c%zu ", w->cursor); hex(w->buffer, 12);
		  fputc(' ', O); d_num(y, (int)a);
		  sml_number_free(y); sml_buffer_free(w); }
		break;
	}
	fprintf(O, " l%ld", live - l0);
}

static octet_string *mkoct(unsigned i) {
	unsigned char b[4];
	b[0] = (unsigned char)i; b[1] = (unsigned char)(i >> 8); b[2] = (unsigned char)(i >> 16); b[3] = 0x5a;
	return sml_octet_string_init(b, 4);
}
/* container count: add numbered elements one by one */
static void op_container(void) {
	unsigned long c = arg(), n = arg(), i, bad = 0;
	long l0 = live;
	sml_file *f; sml_sequence *s; sml_tree *t, *t2; sml_tree_path *tp; sml_list *l, *l2, *last;
	switch (c) {
	case 0:
		f = sml_file_init();
		for (i = 0; i < n; i++) { sml_message *m = sml_message_init(); sml_octet_string_free(m->transaction_id);
			m->transaction_id = mkoct((unsigned)i); sml_file_add_message(f, m);
			if ((unsigned long)f->messages_len != i + 1 || f->messages[i] != m) bad++; }
		fprintf(O, "%d [", f->messages_len);
		for (i = 0; i < (unsigned long)f->messages_len; i++) { if (i) fputc(',', O); d_Oct(f->messages[i]->transaction_id); }
		sml_file_free(f);
		break;
	case 1:
		s = sml_sequence_init((void (*)(void *))sml_octet_string_free);
		for (i = 0; i < n; i++) { octet_string *o = mkoct((unsigned)i); sml_sequence_add(s, o);
			if ((unsigned long)s->elems_len != i + 1 || s->elems[i] != o) bad++; }
		fprintf(O, "%d [", s->elems_len);
		for (i = 0; i < (unsigned long)s->elems_len; i++) { if (i) fputc(',', O); d_Oct(s->elems[i]); }
		sml_sequence_free(s);
		break;
	case 2:
		t = sml_tree_init();
		for (i = 0; i < n; i++) { t2 = sml_tree_init(); t2->parameter_name = mkoct((unsigned)i); sml_tree_add_tree(t, t2);
			if ((unsigned long)t->child_list_len != i + 1 || t->child_list[i] != t2) bad++; }
		fprintf(O, "%d [", t->child_list_len);
		for (i = 0; i < (unsigned long)t->child_list_len; i++) { if (i) fputc(',', O); d_Oct(t->child_list[i]->parameter_name); }
		sml_tree_free(t);
		break;
	case 3:
		tp = sml_tree_path_init();
		for (i = 0; i < n; i++) { octet_string *o = mkoct((unsigned)i); sml_tree_path_add_path_entry(tp, o);
			if ((unsigned long)tp->path_entries_len != i + 1 || tp->path_entries[i] != o) bad++; }
		fprintf(O, "%d [", tp->path_entries_len);
		for (i = 0; i < (unsigned long)tp->path_entries_len; i++) { if (i) fputc(',', O); d_Oct(tp->path_entries[i]); }
		sml_tree_path_free(tp);
		break;
	default:
		l = last = NULL;
		for (i = 0; i < n; i++) { l2 = sml_list_init(); l2->obj_name = mkoct((unsigned)i);
			if (!l) l = l2; else sml_list_add(last, l2); if (last && last->next != l2) bad++; last = l2; }
		for (i = 0, l2 = l; l2; l2 = l2->next) i++;
		fprintf(O, "%lu [", i);
		for (l2 = l; l2; l2 = l2->next) { if (l2 != l) fputc(',', O); d_Oct(l2->obj_name); }
		sml_list_free(l);
	}
	fprintf(O, "] b%lu l%ld", bad, live - l0);
}

void transport_receiver(unsigned char *buffer, size_t buffer_len);
extern int vflag;
/* verbose frame: run the example server's receiver, print its standard output */
static int srvout;
static char *srvbuf; static size_t srvlen;
int vf_printf(const char *f, ...) {
	va_list ap; int n; char *p;
	va_start(ap, f); n = vasprintf(&p, f, ap); va_end(ap);
	if (n < 0) return n;
	srvbuf = realloc(srvbuf, srvlen + n + 1);
	memcpy(srvbuf + srvlen, p, n); srvlen += n; srvbuf[srvlen] = 0;
	free(p);
	return n;
}
int vf_puts(const char *s) { return vf_printf("%s\n", s); }
int vf_putchar(int c) { vf_printf("%c", c); return c; }
static void op_server(void) {
	size_t n; const unsigned char *p; unsigned char *q;
	long l0 = live;
	vflag = (int)arg();
	p = blob(&n);
	q = malloc(n ? n : 1); memcpy(q, p, n);
	srvlen = 0; (void)srvout;
	transport_receiver(q, n);
	hex((unsigned char *)srvbuf, srvlen);
	free(q);
	fprintf(O, " l%ld", live - l0);
}

static void on_alarm(int s) { (void)s; static const char m[] = "TIMEOUT\n"; fflush(O); if (write(2, m, 8)) {} _exit(99); }

int main(int argc, char **argv) {
	FILE *f = fopen(argv[1], "rb"); unsigned char h[12]; long idx = 0, skip = argc > 3 ? atol(argv[3]) : 0;
	O = fopen(argv[2], "wb");
	setvbuf(O, NULL, _IOLBF, 1 << 16);
	signal(SIGALRM, on_alarm);
	while (fread(h, 1, 12, f) == 12) {
		unsigned op = h[0], sec = h[1]; size_t n = (size_t)h[4] | (size_t)h[5] << 8 | (size_t)h[6] << 16 | (size_t)h[7] << 24;
		unsigned char *p = malloc(n ? n : 1);
		if (fread(p, 1, n, f) != n) return 3;
		if (idx >= skip) {
			fillseed = h[2];
			A = p; AN = n;
			fprintf(O, "%ld ", idx);
			alarm(sec ? sec : 20);
			switch (op) {
			case 1: op_parse(); break;
			case 2: op_write(); break;
			case 3: op_file(); break;
			case 4: op_crc(); break;
			case 5: op_read(); break;
			case 6: op_listen(); break;
			case 7: op_transport_write(); break;
			case 8: op_helper(); break;
			case 9: op_container(); break;
			case 10: op_server(); break;
			}
			alarm(0);
			fputc('\n', O);
		}
		free(p);
		idx++;
	}
	fputs("END\n", O);
	fclose(O);
	return 0;
}
