/* C29: messages written exactly, whatever parts are given; the counter counts them. */
#define _GNU_SOURCE
#include "vp.h"
#include "msg_sys/msg_sys.h"
char const *const vp_property = "C29";
enum { PARTS, ARGS, LENGTHS, HISTORY, STREAMS, NCFG };
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", (char const *[]){"parts","arguments","lengths","histories","streams"}[c]); }
int vp_config_shards(int c) { return c==PARTS? 4 : 1; }
/* reference text */
static char *exp_; static size_t expn, expcap;
static void put(char const *p, size_t n) { if( expn + n + 1 > expcap ) { expcap = 2*(expn + n) + 256; exp_ = __real_realloc(exp_, expcap); } memcpy(exp_ + expn, p, n); expn += n; exp_[expn] = 0; }
static void puts_(char const *s) { put(s, strlen(s)); }
static void putu(uint32_t v) { char t[16]; int n = 0; do { t[n++] = (char)('0' + v%10); v /= 10; } while( v ); while( n ) put(&t[--n], 1); }
static void ref(char const *file, char const *type, char const *color, uint32_t const *line, uint32_t const *col, char const *text, size_t tn) {
	if( file ) { puts_("("); puts_(file); if( line ) { puts_(":"); putu(*line); } if( col ) { puts_(":"); putu(*col); } puts_(") "); }
	puts_(color); if( type ) puts_(type); puts_("\033[0m: **** "); put(text, tn); puts_(" ****\n");
}
/* the stream: memory, read back after each message */
static char *mem; static size_t memn; static FILE *out;
static void open_(void) { mem = NULL; memn = 0; expn = 0; if( exp_ ) *exp_ = 0; else put("", 0); out = open_memstream(&mem, &memn); }
static void same(void) { fflush(out); size_t i = 0; while( i < memn && i < expn && mem[i]==exp_[i] ) i++; CHECK(memn==expn && i==expn, "wrote %zu characters, should be %zu; differs at %zu: \"%.60s\" not \"%.60s\"", memn, expn, i, mem+i, exp_+i); }
static void close_(void) { same(); fclose(out); vp_outcome(vp_hash(mem, memn, 1)); __real_free(mem); mem = NULL; }
static char *xs(char const *s) { if( !s ) return NULL; size_t n = strlen(s)+1; return memcpy(__real_malloc(n), s, n); }
static char const *FILES[] = {NULL, "", "a", "some/file.c", "with space:7", "100%s%n", "\xff\x80\x01"}, *TYPES[] = {NULL, "", "e", "syntax error", "%d%s", "warning\n"}, *COLORS[] = {"", "\x1B[31m", "%n", "\x1B[35m\x1B[1m"}, *TEXTS[] = {"", "x", "oh no\n", "100%% sure", "a\tb\x80"};
static char const *TXT[] = {"", "x", "oh no\n", "100% sure", "a\tb\x80"};
static uint32_t const NUMS[] = {0, 1, 9, 10, 99, 100, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu}; enum { NN = sizeof NUMS / 4 };
static void parts(uint32_t f, uint32_t ty, uint32_t co, uint32_t tx, uint32_t ln, uint32_t cl, uint32_t ct) {
	uint32_t t[7] = {f, ty, co, tx, ln, cl, ct}; if( !vp_case(t, 7) ) return; open_();
	char *file = xs(FILES[f]), *type = xs(TYPES[ty]), *color = xs(COLORS[co]), *text = xs(TEXTS[tx]); uint32_t *line = NULL, *col = NULL; if( ln ) { line = __real_malloc(4); *line = NUMS[ln-1]; } if( cl ) { col = __real_malloc(4); *col = NUMS[cl-1]; }
	size_t *cnt = ct? __real_malloc(sizeof *cnt) : NULL; size_t const c0 = (size_t[]){0, 0, 1, SIZE_MAX, 0xffffffff}[ct]; if( cnt ) *cnt = c0;
	harbol_write_msg(cnt, out, file, type, color, line, col, text); if( cnt ) CHECK(*cnt==c0+1, "counter went from %zu to %zu", c0, *cnt);
	ref(FILES[f], TYPES[ty], COLORS[co], line, col, TXT[tx], strlen(TXT[tx])); close_();
	CHECK((!line || *line==NUMS[ln-1]) && (!col || *col==NUMS[cl-1]), "line or column changed"); __real_free(file); __real_free(type); __real_free(color); __real_free(text); __real_free(line); __real_free(col); __real_free(cnt); vp_case_done();
	if( vp_want_sample ) vp_sample("(%s, %s, line class %u, column class %u) %s", FILES[f]? FILES[f] : "no file", TYPES[ty]? TYPES[ty] : "no type", ln, cl, TXT[tx]);
}
/* every sequence of three conversions, each with its argument; the arguments are taken in order */
enum { A_S, A_D, A_U, A_C, A_LD, A_ZU, A_F, A_PCT, A_STAR, A_N };
static void args(uint32_t a, uint32_t b, uint32_t c, uint32_t v) {
	uint32_t t[4] = {a, b, c, v}; if( !vp_case(t, 4) ) return; open_(); uint32_t const k[3] = {a, b, c}; char fmt[64] = "", want[300] = ""; size_t w = 0;
	char const *const S[] = {"", "text", "%s", "\xff\x01z"}; int const D[] = {0, -1, INT_MAX, INT_MIN}; unsigned const U[] = {0, 7, UINT_MAX, 0x80000000u}; int const Ch[] = {'x', '%', 0x80, ' '}; long const LDv[] = {0, -5, LONG_MAX, LONG_MIN}; size_t const Z[] = {0, 42, SIZE_MAX, (size_t)1 << 33}; double const F[] = {0, -1.5, 1e10, 0.125}; int const W[] = {0, 3, 12, -6};
	/* arguments by position: integer class ones pass in order, floating ones in theirs */
	uintptr_t I_[6]; int ni = 0; double f_[3]; int nf = 0;
	for( int i=0; i < 3; i++ ) { strcat(fmt, (char const *[]){"[%s]","%d,","%u;","%c","%ld ","%zu.","%.3f|","%%","%*d/"}[k[i]]);
		unsigned const x = (v + (unsigned)i) % 4;
		switch( k[i] ) { case A_S: I_[ni++] = (uintptr_t)S[x]; w += (size_t)sprintf(want+w, "[%s]", S[x]); break; case A_D: I_[ni++] = (uintptr_t)(intptr_t)D[x]; w += (size_t)sprintf(want+w, "%d,", D[x]); break; case A_U: I_[ni++] = U[x]; w += (size_t)sprintf(want+w, "%u;", U[x]); break;
		case A_C: I_[ni++] = (uintptr_t)Ch[x]; w += (size_t)sprintf(want+w, "%c", Ch[x]); break; case A_LD: I_[ni++] = (uintptr_t)LDv[x]; w += (size_t)sprintf(want+w, "%ld ", LDv[x]); break; case A_ZU: I_[ni++] = Z[x]; w += (size_t)sprintf(want+w, "%zu.", Z[x]); break;
		case A_F: f_[nf++] = F[x]; w += (size_t)sprintf(want+w, "%.3f|", F[x]); break; case A_PCT: want[w++] = '%'; want[w] = 0; break; case A_STAR: I_[ni++] = (uintptr_t)(intptr_t)W[x]; I_[ni++] = (uintptr_t)(intptr_t)D[x]; w += (size_t)sprintf(want+w, "%*d/", W[x], D[x]); break; } }
	while( ni < 6 ) I_[ni++] = 0; while( nf < 3 ) f_[nf++] = 0;
	size_t cnt = 0; harbol_write_msg(&cnt, out, "f", "t", "", NULL, NULL, fmt, I_[0], I_[1], I_[2], I_[3], I_[4], I_[5], f_[0], f_[1], f_[2]); CHECK(cnt==1, "counter is %zu", cnt);
	ref("f", "t", "", NULL, NULL, want, w); close_(); vp_case_done();
}
static uint32_t const LFAR[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 131073};
static void lengths(uint32_t n, uint32_t where) {
	uint32_t t[2] = {n, where}; if( !vp_case(t, 2) ) return; vp_note("%u characters in part %u", n, where); open_(); char *s = __real_malloc(n+1); for( uint32_t i=0; i < n; i++ ) s[i] = (char)('a' + i % 23); s[n] = 0; uint32_t ln = n, cl = ~n; size_t cnt = n;
	harbol_write_msg(&cnt, out, where==0? s : "f", where==1? s : "t", where==2? s : "c", &ln, &cl, where==3? s : where==4? "%s" : "%s %u", where==4? s : "m", n); CHECK(cnt==(size_t)n+1, "counter");
	if( where < 3 ) { char m[32]; sprintf(m, "m %u", n); ref(where==0? s : "f", where==1? s : "t", where==2? s : "c", &ln, &cl, m, strlen(m)); } else ref("f", "t", "c", &ln, &cl, s, n);
	close_(); __real_free(s); vp_case_done();
}
/* histories: messages to two streams and two counters */
static void history(uint32_t const *w, int len) {
	char *m2 = NULL; size_t n2 = 0; open_(); FILE *o2 = open_memstream(&m2, &n2); char e2[4000]; size_t en2 = 0; size_t c[2] = {0, 5}, want[2] = {0, 5};
	for( int i=0; i < len; i++ ) { uint32_t const line = (uint32_t)i*1000; uint32_t const o = w[i]; bool const second = o & 1; size_t *const cp = o/2 % 3==2? NULL : &c[o/2 % 3]; if( cp ) want[o/2 % 3]++;
		harbol_write_msg(cp, second? o2 : out, o >= 6? "F" : NULL, "T", "", &line, NULL, "message %d of %s", i, "some"); char b[60]; sprintf(b, "message %d of some", i); size_t const before = expn; ref(o >= 6? "F" : NULL, "T", "", &line, NULL, b, strlen(b)); if( second ) { memcpy(e2 + en2, exp_ + before, expn - before); en2 += expn - before; expn = before; exp_[expn] = 0; }
		fflush(o2); CHECK(n2==en2 && !memcmp(m2, e2, en2), "the other stream holds %zu characters, should be %zu", n2, en2); same(); CHECK(c[0]==want[0] && c[1]==want[1], "counters are %zu and %zu, should be %zu and %zu", c[0], c[1], want[0], want[1]); }
	fclose(o2); __real_free(m2); close_();
}
/* a stream that fails after k bytes: nothing else is disturbed, the message still counts */
static size_t left; static ssize_t limited(void *k, char const *b, size_t n) { (void)k; (void)b; if( left==0 ) return 0; size_t w = n < left? n : left; left -= w; put(b, w); return (ssize_t)w; }
static void streams(uint32_t k, uint32_t buffered) {
	uint32_t t[2] = {k, buffered}; if( !vp_case(t, 2) ) return; expn = 0; put("", 0); left = k; FILE *f = fopencookie(NULL, "w", (cookie_io_functions_t){.write = limited}); if( !buffered ) setvbuf(f, NULL, _IONBF, 0); size_t cnt = 3; uint32_t line = 12, col = 7;
	harbol_write_msg(&cnt, f, "name", "type", "C", &line, &col, "%s-%d", "text", 5); fclose(f); CHECK(cnt==4, "counter is %zu", cnt); char const *full = "(name:12:7) Ctype\033[0m: **** text-5 ****\n"; CHECK(expn <= strlen(full) && (expn==(k < strlen(full)? k : strlen(full))) && !memcmp(exp_, full, expn), "wrote \"%s\" within %u characters", exp_, k); vp_case_done();
}
void vp_explore(int c) {
	uint64_t q = 0;
	if( c==PARTS ) { for( uint32_t f=0; f < 7; f++ ) for( uint32_t ty=0; ty < 6; ty++ ) for( uint32_t co=0; co < 4; co++ ) for( uint32_t tx=0; tx < 5; tx++ ) for( uint32_t l=0; l <= NN; l++ ) for( uint32_t cl=0; cl <= NN; cl++ ) { if( (int)(q++ % (uint64_t)vp_nshards) != vp_shard ) continue; if( vp_tier ) for( uint32_t ct=0; ct < 5; ct++ ) parts(f, ty, co, tx, l, cl, ct); else parts(f, ty, co, tx, l, cl, (f + ty + co + tx + l + cl) % 5); } }
	else if( c==ARGS ) { for( uint32_t a=0; a < A_N; a++ ) for( uint32_t b=0; b < A_N; b++ ) for( uint32_t d=0; d < A_N; d++ ) for( uint32_t v=0; v < 4; v++ ) { if( (a==A_F) + (b==A_F) + (d==A_F) ) { } args(a, b, d, v); } }
	else if( c==LENGTHS ) for( uint32_t i=0; i < (vp_tier? 1100u : 300u) + 27; i++ ) for( uint32_t w=0; w < 5; w++ ) lengths(i < (vp_tier? 1100u : 300u)? i : LFAR[i-(vp_tier? 1100u : 300u)], w);
	else if( c==HISTORY ) vp_words(12, vp_tier? 5 : 4, history);
	else for( uint32_t k=0; k < 60; k++ ) for( uint32_t b=0; b < 2; b++ ) streams(k, b);
}
void vp_replay(int c, uint32_t const *t, size_t n) {
	if( c==PARTS ) parts(t[0], t[1], t[2], t[3], t[4], t[5], t[6]); else if( c==ARGS ) args(t[0], t[1], t[2], t[3]); else if( c==LENGTHS ) lengths(t[0], t[1]); else if( c==HISTORY ) { if( vp_case(t, n) ) { history(t, (int)n); vp_case_done(); } } else streams(t[0], t[1]);
}
