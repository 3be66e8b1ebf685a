/* C22: diagnostics with source spans, and plain messages: all bounded sources x labels x notes against a reference printer. */
#include "vp.h"
#include "msg_span/msg_span.h"
HARBOL_EXPORT NEVER_NULL(2,5,8) void harbol_write_msg(size_t *msg_cnt, FILE *stream, char const filename[], char const msgtype[], char const msg_color[], uint32_t const *line, uint32_t const *col, char const msg_fmt[], ...);
char const *const vp_property = "C22";
enum { SOURCES, SPANS, PAIRS, HEADERS, MERGE, LONG, FILES, HIST, DIGITS, BYTES, BIG, NCFG };
static int cfg;
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", ((char const *[]){"every source, every line labelled", "every span of small sources", "two and three labels with notes", "headers and plain messages", "merging spans", "long lines, many lines, many labels", "sources from files", "histories of labels, notes and messages", "pairs of spans about the powers of ten", "every byte and every kind of symbol", "very long sources"})[c]); }
int vp_config_shards(int c) { return c==SOURCES || c==SPANS || c==PAIRS || c==DIGITS || c==BIG || c==BYTES? 8 : c==MERGE? 4 : c==FILES || c==HIST? 2 : 1; }

/* ---- reference ---- */
static char *rb; static size_t rn, rcap; /* expected output */
static void out(char const *s, size_t n) { if( rn+n+1 > rcap ) { rcap = (rn+n+1)*2; rb = __real_realloc(rb, rcap); } memcpy(rb+rn, s, n); rn += n; rb[rn] = 0; }
static void outs(char const *s) { out(s, strlen(s)); }
static void outf(char const *f, ...) { char t[256]; va_list a; va_start(a, f); vsnprintf(t, sizeof t, f, a); va_end(a); outs(t); }
static char *norm; static size_t nn; static char *ln[200000]; static size_t lnn[200000]; static size_t nlines;
static void normalise(char const *src, size_t n) { /* CR LF and CR become LF, a tab four spaces */
	norm = __real_malloc(4*n+1); nn = 0;
	for( size_t i=0; i < n; i++ ) { if( src[i]=='\r' ) { norm[nn++] = '\n'; if( i+1 < n && src[i+1]=='\n' ) i++; } else if( src[i]=='\t' ) for( int k=0; k < 4; k++ ) norm[nn++] = ' '; else norm[nn++] = src[i]; }
	norm[nn] = 0; nlines = 0; ln[0] = norm; lnn[0] = 0;
	for( size_t i=0; i < nn; i++ ) if( norm[i]=='\n' ) { nlines++; ln[nlines] = norm+i+1; lnn[nlines] = 0; } else lnn[nlines]++;
	nlines++;
}
static int digits(uint32_t v) { char t[16]; return snprintf(t, sizeof t, "%u", v); }
struct lab { uint32_t ls, le, cs, ce; char const *sc; int sym; char const *mc, *msg; };
static char const *utf(int r) { static char t[8]; if( r < 0x80 ) { t[0] = (char)r; t[1] = 0; } else if( r < 0x800 ) { t[0] = (char)(0xC0|r>>6); t[1] = (char)(0x80|(r&63)); t[2] = 0; } else if( r < 0x10000 ) { t[0] = (char)(0xE0|r>>12); t[1] = (char)(0x80|(r>>6&63)); t[2] = (char)(0x80|(r&63)); t[3] = 0; } else { t[0] = (char)(0xF0|r>>18); t[1] = (char)(0x80|(r>>12&63)); t[2] = (char)(0x80|(r>>6&63)); t[3] = (char)(0x80|(r&63)); t[4] = 0; } return t; }
struct note { char const *mc, *msg; };
static struct lab lab_[2200]; static int nlab; static struct note notes[1100]; static int nnote;
static void pad(int n) { while( n-- > 0 ) outs(" "); }
static void text(char const *mc, char const *msg) { if( mc ) outs(mc); outs(msg); if( mc ) outs(COLOR_RESET); }
static void ref_emit(char const *file, char const *type, char const *code, char const *tc, uint32_t const *l, uint32_t const *c, char const *msg) {
	rn = 0; out("", 0);
	if( type ) { outf("%s%s", tc, type); if( code ) outf("[%s]", code); outs("\033[0m: "); }
	outs(msg); if( file ) { outs("\n--> "); outs(file); if( l ) outf(":%u", *l); if( c ) outf(":%u", *c); }
	if( nlab || nnote ) {
		uint32_t big = 0; for( int i=0; i < nlab; i++ ) if( lab_[i].le > big ) big = lab_[i].le;
		int w = digits(big)+1; outs("\n"); pad(w); outs("|\n");
		for( int i=0; i < nlab; i++ ) { struct lab *p = &lab_[i];
			for( size_t k=1; k <= nlines; k++ ) if( k >= p->ls && k <= p->le ) { outf("%zu", k); pad(w-digits((uint32_t)k)); outs("|"); out(ln[k-1], lnn[k-1]); outs("\n"); }
			pad(w); outs("|"); for( uint32_t x=0; x < p->cs; x++ ) outs(" "); if( p->sc ) outs(p->sc); for( uint32_t x=p->cs; x < p->ce; x++ ) outs(utf(p->sym)); outs("\033[0m "); text(p->mc, p->msg); outs("\n"); }
		if( nnote ) { pad(w); outs("|\n"); for( int i=0; i < nnote; i++ ) { pad(w); text(notes[i].mc, notes[i].msg); outs("\n"); } }
	}
	nlab = nnote = 0;
}
/* ---- the real thing ---- */
static char *gb; static size_t gn; static FILE *gs;
static void quote(char const *s, size_t n, char *o, size_t cap) { size_t k = 0; for( size_t i=0; i < n && k+6 < cap; i++ ) { if( s[i]=='\n' ) { o[k++] = '\\'; o[k++] = 'n'; } else if( s[i]==27 ) { o[k++] = '\\'; o[k++] = 'e'; } else if( s[i]=='\r' ) { o[k++] = '\\'; o[k++] = 'r'; } else if( s[i]=='\t' ) { o[k++] = '\\'; o[k++] = 't'; } else o[k++] = s[i]; } o[k] = 0; }
static void compare(char const *what) {
	fflush(gs);
	if( gn==rn && !memcmp(gb, rb, rn) ) { vp_outcome(vp_hash(rb, rn, 1)); rewind(gs); return; }
	char a[700], b[700]; quote(gb, gn, a, sizeof a); quote(rb, rn, b, sizeof b); vp_fail("%s: shown:\n%s\nshould be:\n%s", what, a, b);
}
/* the stream is a memory stream opened once per case */
static char slot[1 << 23];
static void sopen(void) { gs = fmemopen(slot, sizeof slot, "w"); static char sbuf[1 << 16]; setvbuf(gs, sbuf, _IOFBF, sizeof sbuf); gb = slot; gn = 0; }
static void sync_(void) { fflush(gs); gn = (size_t)ftell(gs); }
static char *exact(char const *s) { size_t n = strlen(s)+1; char *p = __real_malloc(n); memcpy(p, s, n); return p; }
static void check_lines(struct HarbolMsgSpan *m, bool kept) {
	CHECK(harbol_msg_span_get_num_lines(m)==nlines, "%zu lines, should be %zu", harbol_msg_span_get_num_lines(m), nlines);
	for( size_t i=0; i < nlines; i++ ) { struct HarbolString const *s = harbol_msg_span_get_line(m, i); CHECK(s, "line %zu of %zu is missing", i, nlines); CHECK(s->len==lnn[i] && (lnn[i]==0? s->cstr==NULL || s->cstr[0]==0 : !memcmp(s->cstr, ln[i], lnn[i]) && s->cstr[lnn[i]]==0), "line %zu is '%s', should be '%.*s'", i, s->cstr? s->cstr : "", (int)lnn[i], ln[i]); }
	CHECK(harbol_msg_span_get_line(m, nlines)==NULL && harbol_msg_span_get_line(m, SIZE_MAX)==NULL, "a line past the last"); for( int b=8; b < 64; b++ ) if( (1ul << b) >= nlines ) CHECK(harbol_msg_span_get_line(m, 1ul << b)==NULL && harbol_msg_span_get_line(m, (1ul << b) + nlines - 1)==NULL, "a line past the last");
	struct HarbolString const *c = harbol_msg_span_get_code(m);
	if( kept ) CHECK(c->len==nn && c->cstr && !strcmp(c->cstr, norm), "the kept code is '%s'", c->cstr? c->cstr : "(nothing)"); else CHECK(c->len==0 && c->cstr==NULL, "the code was to be freed");
}
static bool make(struct HarbolMsgSpan *m, char const *src, bool keep) {
	size_t n = strlen(src); char *e = exact(src); bool r; normalise(src, n);
	if( keep ) { memset(m, 0, sizeof *m); r = harbol_msg_span_init(m, e, false, false); } else *m = harbol_msg_span_make(e, false, true, &r);
	memset(e, 0x55, n+1); __real_free(e);
	if( n==0 ) { CHECK(!r && harbol_msg_span_get_num_lines(m)==0 && harbol_msg_span_get_line(m, 0)==NULL, "an empty source was accepted or has lines"); nlines = 0; return false; }
	CHECK(r, "init failed"); check_lines(m, keep); return true;
}
static void add(struct HarbolMsgSpan *m, struct lab l) { struct HarbolTokenSpan s = {l.ls, l.le, l.cs, l.ce}; char *e = exact(l.msg), *c = l.mc? exact(l.mc) : NULL; bool r = l.mc && strlen(l.mc)==5? harbol_msg_span_add_label(m, s, l.sc, l.sym, c, "%s", e) : harbol_msg_span_add_label(m, s, l.sc, l.sym, c, e); CHECK(r, "add_label failed"); memset(e, 0x55, strlen(l.msg)+1); __real_free(e); __real_free(c); lab_[nlab++] = l; }
static void addnote(struct HarbolMsgSpan *m, char const *mc, char const *msg) { CHECK(harbol_msg_span_add_note(m, mc, "%s", msg), "add_note failed"); notes[nnote++] = (struct note){mc, msg}; }
static void emit(struct HarbolMsgSpan *m, char const *file, char const *type, char const *code, char const *tc, uint32_t const *l, uint32_t const *c, char const *msg, size_t *cnt) {
	ref_emit(file, type, code, tc, l, c, msg); if( rn >= sizeof slot - 10 ) vp_fail("harness buffer");
	size_t before = cnt? *cnt : 0; sopen(); harbol_msg_span_emit_to_stream(m, cnt, gs, file, type, code, tc, l, c, "%s", msg); if( cnt ) CHECK(*cnt==before+1, "the message counter went from %zu to %zu", before, *cnt);
	sync_(); compare("message"); fclose(gs);
}
static void finish(struct HarbolMsgSpan *m) { harbol_msg_span_clear(m); CHECK(harbol_msg_span_get_num_lines(m)==0 && harbol_msg_span_get_line(m, 0)==NULL, "lines after clear"); harbol_msg_span_clear(m); __real_free(norm); norm = NULL; }
static struct lab L(uint32_t ls, uint32_t le, uint32_t cs, uint32_t ce) { return (struct lab){ls, le, cs, ce, NULL, '^', NULL, "m"}; }

/* every source over an alphabet; each line labelled alone and the whole at once */
static char const *const SALPHA[] = {"a \n", "a\t\r\n", "ab\n\xC3%"};
static char buf[64];
static void source(char const *s) {
	struct HarbolMsgSpan m; for( int keep=0; keep < 2; keep++ ) { nlab = nnote = 0; bool ok = make(&m, s, keep); size_t n = nlines;
		for( size_t i=1; i <= n; i++ ) { add(&m, L((uint32_t)i, (uint32_t)i, 0, (uint32_t)lnn[i-1])); emit(&m, NULL, NULL, NULL, "", NULL, NULL, "x", NULL); }
		add(&m, L(1, (uint32_t)n, 0, 1)); emit(&m, NULL, NULL, NULL, "", NULL, NULL, "x", NULL); (void)ok; if( ok ) check_lines(&m, keep); finish(&m); }
}
static void source_word(uint32_t const *w, int len) {
	uint32_t t[16]; int a = (int)w[-1]; t[0] = (uint32_t)a; for( int i=0; i < len; i++ ) { t[i+1] = w[i]; buf[i] = SALPHA[a][w[i]]; } buf[len] = 0;
	if( !vp_case(t, (size_t)len+1) ) return; source(buf); vp_case_done();
}
static uint32_t alpha; static void src_cb(uint32_t const *w, int len) { uint32_t t[17]; t[0] = alpha; memcpy(t+1, w, (size_t)len * sizeof *w); source_word(t+1, len); }
/* spans */
static char const *const SRC[] = {"", "a", "ab\ncd", "a\n\nb\n", "\n", "int main() {\n\treturn 0;\r\n}\n", "0\n1\n2\n3\n4\n5\n6\n7\n8\n9\n10", "if( x ) {\r\ty();\r}\r\r"};
enum { NSRC = 8 };
static uint32_t const EDGE[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 99, 100, 1000, UINT32_MAX-1, UINT32_MAX};
static uint32_t const COL[] = {0, 1, 2, 3, 4, 5, 13, 40}; static int const SYM[] = {'^', 0xE9, 0x261D, 0x1F600, '%'};
static char const *const SCOL[] = {NULL, "", COLOR_RED}; static char const *const MSG[] = {"m", "", "100% of %d", "two\nlines"};
static void span(uint32_t const *t) { /* source, line_start, line_end, col_start, col_end, style */
	struct HarbolMsgSpan m; nlab = nnote = 0; make(&m, SRC[t[0]], t[5] & 1); int st = (int)t[5]; struct lab l = {EDGE[t[1]], EDGE[t[2]], COL[t[3]], COL[t[4]], SCOL[st%3], SYM[st%5], ((char const *[]){NULL, COLOR_GREEN, ""})[st%3], MSG[st%4]}; if( st%4==2 && st%2==0 ) l.mc = COLOR_BLUE; /* a message with % is passed as data */
	add(&m, l); emit(&m, "f.c", "error", "E1", COLOR_RED, &EDGE[t[1]], &COL[t[3]], "oops", NULL); CHECK(m.labels.len==0, "labels stay after the message"); emit(&m, "f.c", "error", NULL, COLOR_RED, NULL, NULL, "again", NULL); finish(&m);
}
static void pairs(uint32_t const *t, int n) { /* source, then labels: span index; high bits: notes */
	struct HarbolMsgSpan m; nlab = nnote = 0; make(&m, SRC[t[0]], false); static uint32_t const SP[][4] = {{1,1,0,1},{1,1,1,3},{2,2,0,2},{1,2,1,1},{2,3,3,1},{4,4,0,0},{9,10,0,4},{10,10,0,2},{0,0,0,1},{12,12,2,5},{1,11,0,1},{100,100,7,9}};
	for( int i=1; i < n-1; i++ ) { uint32_t const *s = SP[t[i]]; add(&m, (struct lab){s[0], s[1], s[2], s[3], SCOL[i%3], SYM[i%4], i==2? COLOR_CYAN : i==3? "" : NULL, ((char const *[]){"first", "second", "third", "fourth"})[i-1]}); if( i-1 < (int)t[n-1] ) addnote(&m, i==3? "" : i & 1? NULL : COLOR_YELLOW, i & 1? "= help" : "= note :: 50%"); }
	emit(&m, "dir/a b.c", "warning", "W2", COLOR_MAGENTA, NULL, NULL, "several", NULL); finish(&m);
}
enum { NSP = 12 };
static void header(uint32_t const *t) { /* bits */
	uint32_t b = t[0], line = t[1]? UINT32_MAX : 7, col = t[1]? 0 : 123; struct HarbolMsgSpan m; nlab = nnote = 0; make(&m, "src", false); size_t cnt = 41;
	char const *file = b & 1? "file.c" : b & 2? "" : NULL, *type = b & 4? "err" : b & 8? "" : NULL, *code = b & 16? "E7" : NULL; uint32_t const *pl = b & 32? &line : NULL, *pc = b & 64? &col : NULL; size_t *pcnt = b & 128? &cnt : NULL; char const *msg = b & 256? "text" : "";
	emit(&m, file, type, code, b & 4? COLOR_RED : "", pl, pc, msg, pcnt);
	if( b & 512 ) { addnote(&m, NULL, "only a note"); emit(&m, file, type, code, "", pl, pc, msg, pcnt); }
	finish(&m);
	rn = 0; out("", 0); if( file ) { outf("(%s", file); if( pl ) outf(":%u", line); if( pc ) outf(":%u", col); outs(") "); } outf("%s%s\033[0m: **** %s%u ****\n", COLOR_RED, type? type : "t", msg, line);
	cnt = 3; sopen(); harbol_write_msg(pcnt, gs, file, type? type : "t", COLOR_RED, pl, pc, "%s%u", msg, line); sync_(); compare("plain message"); fclose(gs); CHECK(!pcnt || cnt==4, "the message counter is %zu", cnt);
}
static void merge(uint32_t const *t) { /* two spans from six values each */
	static uint32_t const V[] = {0, 1, 2, 5, UINT32_MAX-1, UINT32_MAX}; uint32_t v[8]; uint32_t k = t[0]; for( int i=0; i < 8; i++ ) { v[i] = V[k%6]; k /= 6; }
	struct HarbolTokenSpan a = {v[0], v[1], v[2], v[3]}, b = {v[4], v[5], v[6], v[7]}, r = harbol_token_span_merge(a, b);
	CHECK(r.line_start==(v[0] < v[4]? v[0] : v[4]) && r.line_end==(v[1] > v[5]? v[1] : v[5]) && r.colm_start==(v[2] < v[6]? v[2] : v[6]) && r.colm_end==(v[3] > v[7]? v[3] : v[7]), "merging lines %u..%u columns %u..%u with lines %u..%u columns %u..%u gave lines %u..%u columns %u..%u", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], r.line_start, r.line_end, r.colm_start, r.colm_end);
}
static void lng(uint32_t const *t) { /* kind, n */
	struct HarbolMsgSpan m; nlab = nnote = 0; uint32_t n = t[1]; char *s;
	switch( t[0] ) {
	case 0: /* one line of n characters, highlighted all over, then one past its end */ s = __real_malloc(n+2); for( uint32_t i=0; i < n; i++ ) s[i] = (char)('a' + i%26); s[n] = 0; if( !n ) { s[0] = 'x'; s[1] = 0; } make(&m, s, n & 1); add(&m, L(1, 1, 0, n)); add(&m, L(1, 1, n, n+1)); add(&m, L(1, 1, n/2, n)); emit(&m, NULL, NULL, NULL, "", NULL, NULL, "long", NULL); break;
	case 1: /* n lines, each distinct; every line labelled around the powers of ten, and the whole */ s = __real_malloc(n*8+8); { char *p = s; for( uint32_t i=0; i < n; i++ ) p += sprintf(p, "L%u\n", i*7); sprintf(p, "z"); } make(&m, s, n & 1); for( uint32_t i=1; i <= n+2; i++ ) if( i < 13 || (i > 97 && i < 103) || i+3 > n ) add(&m, L(i, i, i%3, i%3+1)); emit(&m, NULL, NULL, NULL, "", NULL, NULL, "many", NULL); add(&m, L(1, n+1, 0, 2)); emit(&m, NULL, NULL, NULL, "", NULL, NULL, "all", NULL); add(&m, L(n/2, n, 0, 2)); emit(&m, NULL, NULL, NULL, "", NULL, NULL, "half", NULL); break;
	case 2: /* n labels and notes */ s = __real_malloc(16); strcpy(s, "one\ntwo\nthree"); make(&m, s, false); for( uint32_t i=0; i < n; i++ ) { add(&m, L(1+i%3, 1+i%3, i%5, i%5+i%4)); if( i < 45 ) addnote(&m, i & 1? COLOR_RED : NULL, i & 2? "odd" : "even"); } emit(&m, NULL, NULL, NULL, "", NULL, NULL, "labels", NULL); add(&m, L(1, 1, 0, 1)); emit(&m, NULL, NULL, NULL, "", NULL, NULL, "after", NULL); break;
	default: /* message, file name, note and label texts of length n */ s = __real_malloc(n+2); memset(s, 'q', n+1); s[n] = 0; make(&m, "a\nb", false); { struct lab l = L(1, 2, 0, 1); l.msg = s; add(&m, l); l.mc = COLOR_RED; add(&m, l); } addnote(&m, NULL, s); addnote(&m, COLOR_BLUE, s); emit(&m, n? s : "f", n < 200? s : "t", n < 200? s : "c", COLOR_RED, NULL, NULL, s, NULL); break;
	}
	finish(&m); __real_free(s);
}
static void file(uint32_t const *t, int n) { /* kind, content word over four characters */
	struct HarbolMsgSpan m; memset(&m, 0, sizeof m); bool r; nlab = nnote = 0;
	char s[16]; for( int i=1; i < n; i++ ) s[i-1] = "a\n\r\t"[t[i]]; s[n-1] = 0;
	char const *path = t[0]==2? "missing.c" : "src.c"; if( t[0] < 2 ) { FILE *f = fopen("src.c", "wb"); fwrite(s, 1, strlen(s), f); fclose(f); }
	normalise(s, strlen(s)); char *e = exact(path); r = harbol_msg_span_init(&m, e, true, t[0]==0); memset(e, 0x55, strlen(path)+1); __real_free(e);
	if( t[0]==2 || n==1 ) { CHECK(!r && harbol_msg_span_get_num_lines(&m)==0 && harbol_msg_span_get_line(&m, 0)==NULL, "a missing or empty file was accepted"); nlines = 0; }
	else { CHECK(r, "reading a file failed"); check_lines(&m, t[0]==1); CHECK(m.src.filename.cstr && !strcmp(m.src.filename.cstr, path), "the file name is lost"); }
	add(&m, L(1, 3, 0, 2)); emit(&m, path, "e", NULL, "", NULL, NULL, "x", NULL); finish(&m); remove("src.c");
}
/* histories: label, note, message, kept apart from any other message */
static struct HarbolMsgSpan H; static size_t hcnt;
static void hbegin(void) { nlab = nnote = 0; hcnt = 0; make(&H, "one\n\n\tthree", true); }
static void hend(void) { nlab = nnote = 0; finish(&H); }
static void hname(uint32_t o, char *b, size_t n) { snprintf(b, n, "%s", ((char const *[]){"label line 1", "label lines 1-3", "label line 9", "note", "coloured note", "message", "message without header"})[o]); }
static int happly(uint32_t o, bool check) {
	(void)check; if( nlab > 6 || nnote > 6 ) return 0;
	switch( o ) { case 0: add(&H, L(1, 1, 0, 3)); break; case 1: { struct lab l = L(1, 3, 4, 9); l.mc = COLOR_RED; l.sc = COLOR_BLUE; l.msg = "all"; add(&H, l); break; } case 2: { struct lab l = L(9, 9, 2, 2); l.sym = 0x261D; l.msg = ""; add(&H, l); break; }
	case 3: addnote(&H, NULL, "plain"); break; case 4: addnote(&H, COLOR_YELLOW, ""); break;
	case 5: emit(&H, "f", "err", "E", COLOR_RED, NULL, NULL, "msg", &hcnt); break; default: emit(&H, NULL, NULL, NULL, "", NULL, NULL, "msg", &hcnt); break; }
	CHECK(H.labels.len==(size_t)nlab && H.notes.len==(size_t)nnote, "%zu labels and %zu notes are kept, should be %d and %d", H.labels.len, H.notes.len, nlab, nnote); check_lines(&H, true); return 1;
}
static struct vp_sys sys = {7, hbegin, happly, NULL, hend, hname};

/* two labels whose spans begin and end about the powers of ten, in every order */
static void digs(uint32_t const *t) {
	static uint32_t const E[] = {1, 2, 9, 10, 11, 98, 99, 100, 101, 999, 1000, 1001}; enum { NE = 12 }; struct HarbolMsgSpan m; nlab = nnote = 0; static char s[8000]; char *p = s; for( uint32_t i=1; i <= 1002; i++ ) p += sprintf(p, "%u\n", i*3); make(&m, s, false);
	for( uint32_t a=0; a < NE; a++ ) for( uint32_t b=0; b < NE; b++ ) if( vp_tier || E[b] < E[a]+12 ) { add(&m, L(E[t[0]], E[t[1]], 0, 1)); add(&m, L(E[a], E[b], 1, 2)); if( (a+b) & 1 ) addnote(&m, NULL, "note"); emit(&m, NULL, NULL, NULL, "", NULL, NULL, "digits", NULL); }
	finish(&m);
}
/* every byte in the source, the label, the note, the message and the names; symbols of every kind */
static void bytes(uint32_t const *t) { /* byte or code point, where */
	struct HarbolMsgSpan m; nlab = nnote = 0; char s[64], x[16]; uint32_t c = t[0]; if( t[1] < 6 ) { x[0] = (char)c; x[1] = 0; snprintf(s, sizeof s, (char const *[]){"%s", "a%s", "%sb\nc", "x\n%s", "a%sb\n%s%s\nc", "%s\n%s\n"}[t[1]], x, x, x); make(&m, s, c & 1); for( uint32_t i=1; i <= nlines && i < 6; i++ ) add(&m, L(i, i, i, i+2)); emit(&m, "f", "e", NULL, COLOR_RED, NULL, NULL, "x", NULL); finish(&m); return; }
	make(&m, "one\ntwo", false);
	if( t[1]==6 ) { snprintf(x, sizeof x, "%c", (int)c); snprintf(s, sizeof s, "a%s%sb%s", x, x, x); struct lab l = L(1, 2, 1, 3); l.msg = s; l.mc = COLOR_RED; add(&m, l); addnote(&m, NULL, s); addnote(&m, x, s); emit(&m, s, x, s, x, &c, &c, s, NULL); }
	else { struct lab l = L(2, 2, 1, 2); l.sym = (int)c; add(&m, l); l.cs = 3; l.ce = 7; l.sc = COLOR_CYAN; add(&m, l); l.cs = l.ce = 2; add(&m, l); emit(&m, "f", "e", NULL, COLOR_RED, NULL, NULL, "x", NULL); }
	finish(&m);
}
/* kind: long line, many lines, labels and notes, a file with a line end about a buffer's end, texts */
static void big(uint32_t const *t) {
	struct HarbolMsgSpan m; nlab = nnote = 0; uint32_t n = t[1]; char *s = __real_malloc((size_t)n*9 + 100), *p = s;
	switch( t[0] ) {
	case 0: for( uint32_t i=0; i < n; i++ ) *p++ = (char)('!' + i%90); strcpy(p, "\nlast"); make(&m, s, n & 1); add(&m, L(1, 1, 0, 3)); add(&m, L(1, 2, n-1, n+1)); add(&m, L(2, 2, n/2, n)); emit(&m, NULL, NULL, NULL, "", NULL, NULL, "long", NULL); break;
	case 1: for( uint32_t i=0; i < n; i++ ) p += sprintf(p, "%x%s", i*7, i % 3? "\n" : i % 2? "\r\n" : "\r"); strcpy(p, "\tz"); make(&m, s, n & 1); for( uint32_t i=0; i < 5; i++ ) { add(&m, L(n-1+i, n-1+i, i, i+1)); if( i==2 ) emit(&m, "f", "e", NULL, "", &n, &n, "end", NULL); } emit(&m, NULL, NULL, NULL, "", NULL, NULL, "many", NULL); add(&m, L(1, n+1, 0, 2)); add(&m, L(3, 5, 0, 2)); emit(&m, NULL, NULL, NULL, "", NULL, NULL, "all", NULL); break;
	case 5: for( uint32_t i=0; i < n; i++ ) { if( i+5 > n ) *p++ = (char)('a' + i%26); *p++ = '\n'; } strcpy(p, "z"); make(&m, s, n & 1); for( uint32_t i=0; i < 5; i++ ) add(&m, L(n-2+i, n-2+i, i, i+1)); add(&m, L(n-3, UINT32_MAX, 0, 1)); emit(&m, "f", "e", NULL, "", &n, &n, "end", NULL); break;
	case 2: make(&m, "a\nb", true); for( uint32_t i=0; i < n; i++ ) { add(&m, L(1 + i%2, 1 + i%2, i%7, i%7 + 1)); addnote(&m, i & 1? COLOR_RED : NULL, i % 5? "n" : "longer note"); } emit(&m, NULL, NULL, NULL, "", NULL, NULL, "labels", NULL); break;
	case 3: { for( uint32_t i=0; i < n; i++ ) *p++ = i % 61==60? '\n' : (char)('a' + i%26); strcpy(p, t[2]==0? "\r\nend\tx" : t[2]==1? "\tq\r" : "\n\n"); FILE *f = fopen("big.c", "wb"); fwrite(s, 1, strlen(s), f); fclose(f); normalise(s, strlen(s)); bool r; m = harbol_msg_span_make("big.c", true, n & 1, &r); CHECK(r, "reading a file failed"); check_lines(&m, !(n & 1)); add(&m, L((uint32_t)nlines-1, (uint32_t)nlines, 0, 2)); emit(&m, "big.c", "e", NULL, "", NULL, NULL, "x", NULL); remove("big.c"); break; }
	default: memset(s, 'q', n); s[n] = 0; make(&m, "a\nb", false); { struct lab l = L(1, 2, 0, 1); l.msg = s; add(&m, l); l.mc = COLOR_RED; add(&m, l); } addnote(&m, NULL, s); addnote(&m, COLOR_BLUE, s); emit(&m, s, "t", "c", COLOR_RED, NULL, NULL, s, NULL); break;
	}
	finish(&m); __real_free(s);
}
static uint64_t nc; static bool mine(void) { return (int)(nc++ % (uint64_t)vp_nshards)==vp_shard; }
#define RUN(f, t, n, ...) do { if( mine() && vp_case(t, n) ) { f(__VA_ARGS__); vp_case_done(); } } while( 0 )
static void runcase(uint32_t const *t, size_t n) {
	switch( cfg ) { case SOURCES: { uint32_t w[17]; memcpy(w, t, n*sizeof *t); source_word(w+1, (int)n-1); return; } case SPANS: RUN(span, t, n, t); break; case PAIRS: RUN(pairs, t, n, t, (int)n); break; case HEADERS: RUN(header, t, n, t); break; case MERGE: RUN(merge, t, n, t); break; case LONG: RUN(lng, t, n, t); break; case FILES: RUN(file, t, n, t, (int)n); break; case DIGITS: RUN(digs, t, n, t); break; case BYTES: RUN(bytes, t, n, t); break; case BIG: RUN(big, t, n, t); break; default: vp_replay_hist(&sys, t, n); }
}
void vp_explore(int c) {
	cfg = c; nc = 0;
	switch( c ) {
	case SOURCES: for( alpha=0; alpha < 3; alpha++ ) vp_words((uint32_t)strlen(SALPHA[alpha]), (alpha==0? 8 : alpha==1? 7 : 5) + vp_tier, src_cb); break;
	case SPANS: for( uint32_t s=0; s < NSRC; s++ ) for( uint32_t a=0; a < 18; a++ ) for( uint32_t b=0; b < 18; b++ ) for( uint32_t x=0; x < 8; x++ ) for( uint32_t y=0; y < 8; y++ ) for( uint32_t st=0; st < (vp_tier? 60u : 5u); st++ ) { uint32_t t[6] = {s, a, b, x, y, vp_tier? st : (a+b+x+y+st*13)%60}; runcase(t, 6); } break;
	case PAIRS: for( uint32_t s=0; s < NSRC; s++ ) for( uint32_t a=0; a < NSP; a++ ) { for( uint32_t b=0; b < NSP; b++ ) for( uint32_t k=0; k < NSP; k++ ) { for( uint32_t q=0; q < 4; q++ ) { uint32_t t[5] = {s, a, b, k, q}; runcase(t, 5); } if( vp_tier ) for( uint32_t d=0; d < NSP; d++ ) { uint32_t t[6] = {s, a, b, k, d, 4}; runcase(t, 6); } } } break;
	case HEADERS: for( uint32_t b=0; b < 1024; b++ ) for( uint32_t v=0; v < 2; v++ ) { uint32_t t[2] = {b, v}; runcase(t, 2); } break;
	case MERGE: for( uint32_t k=0; k < 1679616; k++ ) { uint32_t t[1] = {k}; runcase(t, 1); } break;
	case LONG: for( uint32_t k=0; k < 4; k++ ) for( uint32_t n=0; n < (k==2? 300u : vp_tier? 1200u : 300u); n++ ) { uint32_t t[2] = {k, n}; runcase(t, 2); } for( uint32_t i=0; i < 4; i++ ) { uint32_t t[2] = {i&1? 1 : 0, (uint32_t[]){1100, 1001, 5000, 1500}[i]}; runcase(t, 2); } break;
	case FILES: for( uint32_t k=0; k < 3; k++ ) for( int len=0; len <= (k==2? 0 : 6 + vp_tier); len++ ) { uint32_t tot = 1; for( int i=0; i < len; i++ ) tot *= 4; for( uint32_t v=0; v < tot; v++ ) { uint32_t t[16], x = v; t[0] = k; for( int i=0; i < len; i++ ) { t[i+1] = x%4; x /= 4; } runcase(t, (size_t)len+1); } } break;
	case BYTES: for( uint32_t w=0; w < 7; w++ ) for( uint32_t b=1; b < 256; b++ ) { uint32_t t[2] = {b, w}; runcase(t, 2); } for( uint32_t b=1; b < 0x110000; b += b < 0x900 || (b >= 0xd700 && b < 0xd7ff) || (b >= 0xe000 && b < 0xe100) || (b >= 0xff00 && b < 0x10100) || b >= 0x10ff00? 1 : b==0xd7ff? 0x801 : (b & 0xff)==0xff? 1 : vp_tier? 1 : 0xff - (b & 0xff) ) { uint32_t t[2] = {b, 7}; runcase(t, 2); } break;
	case BIG: { static uint32_t const N[] = {255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 9998, 9999, 10000, 10001, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 99998, 99999, 100000, 100001}; for( uint32_t k=0; k < 6; k++ ) for( uint32_t i=0; i < sizeof N / sizeof *N; i++ ) { if( k==5 && N[i] < 65000 ) continue; if( k==2 && N[i] > 1025 ) continue; if( k==1 && N[i] > 40000 && !vp_tier && N[i] != 65537 ) continue; if( k==3 ) for( uint32_t j=0; j < 7; j++ ) for( uint32_t v=0; v < 3; v++ ) { uint32_t t[3] = {3, N[i] + j - 4, v}; runcase(t, 3); } else { uint32_t t[2] = {k, N[i]}; runcase(t, 2); } } break; }
	case DIGITS: for( uint32_t a=0; a < 12; a++ ) for( uint32_t b=0; b < 12; b++ ) { uint32_t t[2] = {a, b}; runcase(t, 2); } break;
	default: vp_dfs(&sys, vp_tier? 8 : 6); }
}
void vp_replay(int c, uint32_t const *t, size_t n) { cfg = c; vp_nshards = 1; vp_shard = 0; nc = 0; runcase(t, n); }
