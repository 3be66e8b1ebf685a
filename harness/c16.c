/* C16: strings, escapes, comments, identifiers. Every short text over alphabets of character classes against a reference scanner; texts sit in exact-size heap blocks under AddressSanitizer. */
#define _GNU_SOURCE
#include "vp.h"
#include "lex/lex.h"
#include "lexref.h"
char const *const vp_property = "C16";
enum { STR=1, ESC=2, COM=4, MQ=8, WORD=16, NL=32, UNI=64 };
struct conf { char const *name, *pre, *abc; int q, t; int what; };
static struct conf const C[] = {
	{"mixed",      "",     "\"'`\\nx0u8Fa\n/* #_\xc3\xa9", 4, 5, 127},
	{"strings",    "\"",   "\"\\nNx01u'`a\n\xc3", 5, 6, STR},
	{"letters",    "\"\\", "arbtvnNfeEsxXuU07'\"`\\ ?\n\xe9", 2, 3, STR},
	{"hex",        "\"\\x","017FaG\"\\", 6, 7, STR},
	{"hex-long",   "\"\\X","01F\"", 9, 11, STR},
	{"hex-raw",    "",     "018Ffg", 7, 9, ESC},
	{"hex-raw-long", "",   "0F8", 10, 11, ESC},
	{"hex-raw-max", "",    "7F08", 9, 9, ESC},
	{"octal",      "\"\\", "01478\"z\\", 6, 7, STR},
	{"unicode4",   "\"\\u","0D8FAg\"", 6, 7, STR},
	{"unicode8",   "\"\\U","01DF\"", 9, 10, STR},
	{"unicode8-low","\"\\U0010", "0F1D\"", 6, 7, STR},
	{"raw",        "`",    "`\\n\"a\nx0", 6, 7, STR},
	{"comments",   "",     "/*\\\n a", 7, 9, COM},
	{"comments-nested", "/*", "/*\n a", 8, 9, COM},
	{"multiquote", "",     "`\\\na'", 7, 9, MQ},
	{"words",      "",     "aZ_9 \t\n\r\v-\xc3\xa9\xff@", 4, 5, WORD},
	{"utf8-words", "",     "a9 \xc3\xa9\xe6\x97\xf0\x80\xbf\xf7\xf8", 5, 6, UNI},
	{"newlines",   "",     "\r\n\ta", 8, 10, NL},
};
enum { NC = sizeof C / sizeof *C };
int vp_nconfigs(void) { return NC + 4; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", c >= NC? ((char const *[]){"ladder", "each-byte", "beyond 16 bits", "every code point"})[c-NC] : C[c].name); }
int vp_config_shards(int c) { return c >= NC? 8 : 3; }
static int cfg;

static char const *S; static size_t N; /* the text under test: exact block */
static char const *quoted(char const *s) { static char b[512]; size_t n = 0; for( ; *s && n < 400; s++ ) { if( *s=='\n' ) n += (size_t)sprintf(b+n, "\\n"); else if( *s=='\r' ) n += (size_t)sprintf(b+n, "\\r"); else if( (uint8_t)*s >= 0x7f || *s < 32 ) n += (size_t)sprintf(b+n, "\\%03o", (uint8_t)*s); else b[n++] = *s; } b[n] = 0; return b; }
#define INSIDE(e,f) CHECK((e) >= S && (e) <= S+N, "%s(%s): end position %s", f, quoted(S), (e)? "outside the text" : "not set")
#define BUF(b,o,f) CHECK((b).len==(o).n && !((o).n && memcmp((b).cstr, (o).b, (o).n)) && ((b).cstr==NULL || (b).cstr[(b).len]==0), "%s(%s): delivered %zu bytes \"%s\", should be %zu bytes", f, quoted(S), (b).len, (b).cstr? (b).cstr : "", (o).n)

static void t_str(void) {
	for( int go=0; go < 2; go++ ) {
		OUT(o); size_t n; int want = rstr(S, go && S[0]=='`', &o, &n); char const *f = go? "lex_go_style_str" : "lex_c_style_str";
		char const *e = NULL; struct HarbolString b = {0};
		enum HarbolLexErrType r = go? lex_go_style_str(S, &e, &b) : lex_c_style_str(S, &e, &b);
		INSIDE(e, f); CHECK((int)r==want, "%s(%s): \"%s\", should be \"%s\"", f, quoted(S), lex_get_err(r), lex_get_err((enum HarbolLexErrType)want));
		if( !want ) { CHECK(e==S+n, "%s(%s): ends after %td, should be %zu", f, quoted(S), e-S, n); BUF(b, o, f); }
		harbol_string_clear(&b);
	}
	char const escs[] = "\\\"a"; for( int k=0; k < 3; k++ ) {
		size_t i = 0; if( S[0] ) for( i=1; S[i] && S[i] != S[0]; i++ ) if( S[i]==escs[k] && S[i+1] ) i++;
		char const *e = skip_string_literal(S, escs[k]); INSIDE(e, "skip_string_literal"); CHECK(e==S+i, "skip_string_literal(%s, '%c'): stops at %td, should be %zu", quoted(S), escs[k], e-S, i);
	}
}
static void t_esc(void) {
	size_t k; char const *e = NULL; int64_t v = rhex(S, &k); int32_t r = lex_hex_escape_char(S, &e); INSIDE(e, "lex_hex_escape_char"); CHECK(r==v, "lex_hex_escape_char(%s): %d, should be %lld", quoted(S), r, (long long)v); if( v >= 0 || k==0 ) CHECK(e==S+k, "lex_hex_escape_char(%s): ends after %td", quoted(S), e-S);
	e = NULL; v = roct(S, &k); r = lex_octal_escape_char(S, &e); INSIDE(e, "lex_octal_escape_char"); CHECK(r==v, "lex_octal_escape_char(%s): %d, should be %lld", quoted(S), r, (long long)v); CHECK(e==S+k, "lex_octal_escape_char(%s): ends after %td", quoted(S), e-S);
	for( size_t w=2; w <= 4; w += 2 ) { e = NULL; v = runi(S, w*2, &k); r = lex_unicode_char(S, &e, w); INSIDE(e, "lex_unicode_char"); CHECK(r==v, "lex_unicode_char(%s, %zu): %d, should be %lld", quoted(S), w, r, (long long)v); CHECK(e==S+k, "lex_unicode_char(%s): ends after %td", quoted(S), e-S); }
}
static void t_com(void) {
	/* single line */
	size_t i = 0, nl = 0; OUT(o); static char clr[LEX_MAX]; memcpy(clr, S, N+1);
	while( S[i] && S[i] != '\n' ) { if( S[i]=='\\' ) { while( S[i] && S[i] != '\n' ) { put(&o, S[i]); clr[i++] = ' '; } if( S[i]=='\n' ) { nl++; put(&o, S[i++]); } } else { put(&o, S[i]); clr[i++] = ' '; } }
	uint32_t l = 7; char const *e = skip_single_line_comment(S, &l); INSIDE(e, "skip_single_line_comment"); CHECK(e==S+i && l==7+nl, "skip_single_line_comment(%s): stops at %td with %u lines, should be %zu with %zu", quoted(S), e-S, l-7, i, nl);
	struct HarbolString b = {0}; l = 7; e = NULL; bool r = lex_single_line_comment(S, &e, &b, &l); INSIDE(e, "lex_single_line_comment"); CHECK(e==S+i && l==7+nl && r==(i > 0), "lex_single_line_comment(%s): stops at %td with %u lines, should be %zu with %zu", quoted(S), e-S, l-7, i, nl); BUF(b, o, "lex_single_line_comment"); harbol_string_clear(&b);
	char *m = __real_malloc(N+1); memcpy(m, S, N+1); char *me = clear_single_line_comment(m); CHECK(me==m+i && !memcmp(m, clr, N+1), "clear_single_line_comment(%s): gives '%s' and stops at %td, should be %zu", quoted(S), m, me-m, i); __real_free(m);
	/* multi line, for two closing tokens; the opening one has the closing one's length */
	char const *tok[] = {"*/", "a", "*a/"}; for( int t=0; t < 3; t++ ) {
		size_t tl = strlen(tok[t]); if( t && tl > N ) continue; /* the opening token is there */
		i = nl = 0; o.n = 0; memcpy(clr, S, N+1);
		while( S[i] && (i < tl || strncmp(S+i, tok[t], tl)) ) { if( S[i]=='\n' ) nl++; else clr[i] = ' '; put(&o, S[i]); i++; }
		if( S[i] ) for( size_t k=0; k < tl; k++ ) { put(&o, S[i]); clr[i++] = ' '; }
		l = 7; e = skip_multi_line_comment(S, tok[t], tl, &l); INSIDE(e, "skip_multi_line_comment"); CHECK(e==S+i && l==7+nl, "skip_multi_line_comment(%s, '%s'): stops at %td with %u lines, should be %zu with %zu", quoted(S), tok[t], e-S, l-7, i, nl);
		l = 7; e = NULL; r = lex_multi_line_comment(S, &e, tok[t], tl, &b, &l); INSIDE(e, "lex_multi_line_comment"); CHECK(e==S+i && l==7+nl && r==(i > 0), "lex_multi_line_comment(%s, '%s'): stops at %td with %u lines, should be %zu with %zu", quoted(S), tok[t], e-S, l-7, i, nl); BUF(b, o, "lex_multi_line_comment"); harbol_string_clear(&b);
		m = __real_malloc(N+1); memcpy(m, S, N+1); me = clear_multi_line_comment(m, tok[t], tl); CHECK(me==m+i && !memcmp(m, clr, N+1), "clear_multi_line_comment(%s, '%s'): gives '%s' and stops at %td, should be %zu", quoted(S), tok[t], m, me-m, i); __real_free(m);
	}
}
static void t_mq(void) {
	static char const *const Q[] = {"`", "``", "'`'", "````", "'`a`'", "``````"}; for( int q=0; q < 6; q++ ) {
		size_t ql = strlen(Q[q]), i, nl = 0; OUT(o);
		for( i=0; S[i] && strncmp(S+i, Q[q], ql); i++ ) if( S[i]=='\\' && S[i+1] ) i++;
		if( S[i] ) i += ql;
		char const *e = skip_multiquote_string(S, Q[q], ql, '\\'); INSIDE(e, "skip_multiquote_string"); CHECK(e==S+i, "skip_multiquote_string(%s, %s): stops at %td, should be %zu", quoted(S), Q[q], e-S, i);
		i = 0; if( !strncmp(S, Q[q], ql) ) i = ql;
		for( ; S[i] && strncmp(S+i, Q[q], ql); i++ ) { put(&o, S[i]); nl += S[i]=='\n'; }
		bool ok = S[i] != 0; if( ok ) i += ql;
		struct HarbolString b = {0}; size_t line = 3; e = NULL; bool r = lex_multiquote_string(S, &e, Q[q], ql, &b, &line); INSIDE(e, "lex_multiquote_string");
		CHECK(r==ok && e==S+i && line==3+nl, "lex_multiquote_string(%s, %s): %d, stops at %td, %zu lines; should be %d, %zu, %zu", quoted(S), Q[q], r, e-S, line-3, ok, i, nl); BUF(b, o, "lex_multiquote_string"); harbol_string_clear(&b);
	}
}
static bool chk_not9(int32_t c) { return c != '9'; }
static bool chk_word(int32_t c) { return c=='a' || c=='9' || c==0xE9 || c==0x65E5 || c < 0; }
static bool chk_any(int32_t c) { (void)c; return true; }
static bool alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c=='_' || c < -1; }
static bool ws(int c) { return c && strchr(" \t\r\v\f\n", c); }
static void t_word(void) {
	size_t i = 0; char const *e = NULL; struct HarbolString b = {0}; OUT(o);
#define COPY(lo) do { o.n = 0; for( size_t k_=0; k_ < i; k_++ ) put(&o, S[k_]); (void)lo; } while(0)
	while( S[i] && (alpha(S[i]) || (i && S[i] >= '0' && S[i] <= '9')) ) i++;
	bool r = lex_c_style_identifier(S, &e, &b); INSIDE(e, "lex_c_style_identifier"); CHECK(r==(i > 0) && e==S+i, "lex_c_style_identifier(%s): %d, ends after %td, should be %zu", quoted(S), r, e-S, i); COPY(0); BUF(b, o, "lex_c_style_identifier"); harbol_string_clear(&b);
	uint32_t l = 2, nl = 0; for( i=0; S[i] && ws(S[i]); i++ ) nl += S[i]=='\n'; e = skip_chars(S, is_whitespace, &l); CHECK(e==S+i && l==2+nl, "skip_chars(%s): %td, should be %zu", quoted(S), e-S, i);
	bool (*sk[])(int32_t) = {is_alphabetic, is_possible_id, chk_not9, chk_any}; for( int k=0; k < 4; k++ ) { l = 5; nl = 0; for( i=0; S[i] && sk[k](S[i]); i++ ) nl += S[i]=='\n'; e = skip_chars(S, sk[k], &l); CHECK(e==S+i && l==5+nl, "skip_chars(%s, checker %d): %td, should be %zu", quoted(S), k, e-S, i); for( i=0; S[i] && S[i] != '\n' && sk[k](S[i]); i++ ); e = skip_chars_until_newline(S, sk[k]); CHECK(e==S+i, "skip_chars_until_newline(%s, checker %d): %td, should be %zu", quoted(S), k, e-S, i); }
	for( i=0; S[i] && S[i] != '\n' && ws(S[i]); i++ ); e = skip_chars_until_newline(S, is_whitespace); CHECK(e==S+i, "skip_chars_until_newline(%s): %td, should be %zu", quoted(S), e-S, i);
	char const ctl[] = "9\n \xff"; for( int k=0; k < 4; k++ ) { for( i=0; S[i] && S[i] != ctl[k]; i++ ); e = NULL; r = lex_until(S, &e, &b, ctl[k]); INSIDE(e, "lex_until"); CHECK(e==S+i && r==(i > 0), "lex_until(%s): %d, %td, should be %zu", quoted(S), r, e-S, i); COPY(0); BUF(b, o, "lex_until"); harbol_string_clear(&b); }
	static int32_t const beyond[] = {0x100 + 'a', 0x10000 + '9', 0x20AC, -0x100 + '\n', 0x100, 0x10000 + ' '}; for( int k=0; k < 6; k++ ) { e = NULL; r = lex_until(S, &e, &b, beyond[k]); INSIDE(e, "lex_until"); CHECK(e==S+N && r==(N > 0), "lex_until(%s) up to %d: %d, %td, should be %zu", quoted(S), beyond[k], r, e-S, N); harbol_string_clear(&b); }
	bool (*ck[])(int32_t) = {is_alphabetic, is_possible_id, chk_not9, is_whitespace, chk_any}; for( int k=0; k < 5; k++ ) { for( i=0; S[i] && ck[k](S[i]); i++ ); e = NULL; r = lex_until_false(S, &e, &b, ck[k]); INSIDE(e, "lex_until_false"); CHECK(e==S+i && r==(i > 0), "lex_until_false(%s): %d, %td, should be %zu", quoted(S), r, e-S, i); COPY(0); BUF(b, o, "lex_until_false"); harbol_string_clear(&b); }
	for( i=0; i <= N+1; i++ ) for( int c=0; c < 3; c++ ) { int32_t x = c==0? 'a' : c==1? 0 : (char)0xc3; CHECK(check_is_char(S, N, i, x)==(i < N && x && S[i]==x), "check_is_char(%s, %zu)", quoted(S), i); }
	for( i=0; i <= N; i++ ) for( size_t m=0; m <= i && m <= 4; m++ ) CHECK(!check_is_char(S, i-m, i, S[i]), "check_is_char(%s, %zu of %zu)", quoted(S), i, i-m);
	{ static int32_t const far[] = {'a', 0, 0x10FFFF, 0x161, -1, 0x61 + 0x100000, 0xFFFF}; int32_t *r32 = __real_malloc(sizeof *r32 * (N+1)); for( i=0; i <= N; i++ ) r32[i] = S[i]=='\n'? 0x10FFFF : S[i]=='9'? 0x161 : (uint8_t)S[i]; for( i=0; i <= N+1; i++ ) for( int c=0; c < 7; c++ ) CHECK(check_is_rune(r32, N, i, far[c])==(i < N && far[c] && r32[i]==far[c]), "check_is_rune(%s, %zu, %x)", quoted(S), i, far[c]);
		for( i=0; i <= N; i++ ) for( size_t m=0; m <= i && m <= 2; m++ ) CHECK(!check_is_rune(r32, i-m, i, r32[i]), "check_is_rune(%s, %zu of %zu)", quoted(S), i, i-m); __real_free(r32); }
}
/* UTF-8 aware scanning: valid sequences are copied and advanced over; a sequence cut off by the end of the text stops the scan */
static void t_uni(void) {
	bool (*ck[])(int32_t) = {chk_word, chk_any, chk_not9}; for( int k=0; k < 3; k++ ) {
		OUT(o); size_t i = 0; bool cut = false, odd = false;
		while( S[i] ) { uint8_t c = (uint8_t)S[i]; size_t n = c < 0xC0? 1 : c < 0xE0? 2 : c < 0xF0? 3 : c < 0xF8? 4 : 9; int32_t v;
			if( n==9 || c < 0xC0 ) { if( c >= 0x80 ) odd = true; n = 1; v = S[i]; if( c >= 0xF8 ) { odd = true; break; } }
			else { if( i+n > N ) { cut = true; break; } v = c & (0xFF >> (n+1)); for( size_t j=1; j < n; j++ ) { if( (S[i+j] & 0xC0) != 0x80 ) odd = true; v = v<<6 | (S[i+j] & 0x3F); } if( v > 0x10FFFF || v < (n==2? 0x80 : n==3? 0x800 : 0x10000) || (v >= 0xD800 && v < 0xE000) ) odd = true; }
			if( odd ) break;
			if( !ck[k](v) ) break;
			for( size_t j=0; j < n; j++ ) put(&o, S[i+j]); i += n; }
		char const *e = NULL; struct HarbolString b = {0}; bool r = lex_until_false_utf8(S, &e, &b, ck[k]); INSIDE(e, "lex_until_false_utf8"); CHECK(b.len <= N*2, "more text delivered than there is");
		if( !odd ) { CHECK(e==S+i && r==(!cut && i > 0), "lex_until_false_utf8(%s): %d, %td, should be %zu", quoted(S), r, e-S, i); BUF(b, o, "lex_until_false_utf8"); }
		else CHECK(e >= S+i, "lex_until_false_utf8(%s): stops at %td before the malformed part at %zu", quoted(S), e-S, i);
		harbol_string_clear(&b);
	}
}
static void t_nl(void) {
	for( int tabs=0; tabs < 2; tabs++ ) { OUT(o); for( size_t i=0; i < N; i++ ) { if( S[i]=='\r' ) { put(&o, '\n'); if( S[i+1]=='\n' ) i++; } else if( S[i]=='\t' && tabs ) for( int k=0; k < 4; k++ ) put(&o, ' '); else put(&o, S[i]); }
		struct HarbolString b = {0}; harbol_string_copy_cstr(&b, S); lex_fix_newlines(&b, tabs); BUF(b, o, "lex_fix_newlines"); harbol_string_clear(&b); }
}
static void all(char const *s0, int x) { out_top = 0;
	char *s = __real_malloc(N+1); memcpy(s, s0, N+1); S = s;
	if( x & STR ) t_str(); if( x & ESC ) t_esc(); if( x & COM ) t_com(); if( x & MQ ) t_mq(); if( x & WORD ) t_word(); if( x & UNI ) t_uni(); if( x & NL ) t_nl();
	CHECK(!memcmp(s, s0, N+1), "text was modified"); __real_free(s); vp_add_transitions(8);
	if( vp_want_sample ) vp_sample("%.100s", quoted(s0));
}
static void text(uint32_t const *w, int len) {
	char s0[80]; size_t pl = strlen(C[cfg].pre); memcpy(s0, C[cfg].pre, pl); for( int i=0; i < len; i++ ) s0[pl+(size_t)i] = C[cfg].abc[w[i]]; N = pl + (size_t)len; s0[N] = 0; all(s0, C[cfg].what);
}
/* ---- ladder: constructs of any length ---- */
static char const *const LP[] = {"", "\"", "'", "`", "/*", "//", "\"\\x0", "\"\\u00e", "'`'", "``", "a", "/* *", "\r"}, *const LU[] = {"a", " ", "\n", "\\n", "\\\"", "\\x41 ", "\\101", "\\u00e9", "\\U0001F600", "*", "/", "\\\n", "0", "f", "\xc3\xa9", "\xf0\x9f\x98\x80", "\t", "\r\n", "9", "_", "'", "`", "\\\\", "*a", "\r", "\r\r\na", "\ta\r\n", "\t\n"},
	*const LE[] = {"", "\"", "'", "`", "*/", "\n", "\\", "\\\"", "``", "'`'", "\"x", "*", " ", "\xc3", "\r", "\\x", "*/*/"};
static uint32_t const LN[] = {2,3,4,5,6,7,8,9,10,12,15,16,17,20,24,31,32,33,40,48,62,63,64,65,66,80,99,100,101,126,127,128,129,130,200,254,255,256,257,258,300,511,512,513,1000,1023,1024,1025,2000,4095,4096,4097,20000,65535,65536,65537};
static void lrun(uint32_t p, uint32_t u, uint32_t e, uint32_t n) {
	uint32_t t[4] = {p, u, e, n}; if( !vp_case(t, 4) ) return; vp_note("\"%s\" then %u times \"%s\" then \"%s\"", LP[p], n, LU[u], LE[e]);
	char *x = __real_malloc((size_t)n*strlen(LU[u]) + 40), *q = x; q = stpcpy(q, LP[p]); for( uint32_t i=0; i < n; i++ ) q = stpcpy(q, LU[u]); q = stpcpy(q, LE[e]); N = (size_t)(q-x); if( N < LEX_MAX/4 - 8 || (N < LEX_MAX - 8 && LU[u][0] != '\t') ) all(x, 127); __real_free(x); vp_case_done();
}
static void ladder(void) {
	uint64_t x = 0; for( uint32_t k=0; k < sizeof LN/sizeof *LN; k++ ) for( uint32_t p=0; p < sizeof LP/sizeof *LP; p++ ) for( uint32_t u=0; u < sizeof LU/sizeof *LU; u++ ) for( uint32_t e=0; e < sizeof LE/sizeof *LE; e++ ) {
		if( LN[k] > 300 && (p*7 + u*3 + e + k) % (LN[k] > 10000? 601u : LN[k] > 1100? 91u : 11u) && !(vp_tier && LN[k] < 1500) ) continue; if( LN[k] > 12 && (p*5 + u + e + k) % 3 && !vp_tier ) continue;
		if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) lrun(p, u, e, LN[k]); }
}
/* every byte value, alone and doubled, plain and after a backslash, in every construct */
static void brun(uint32_t p, uint32_t u, uint32_t e, uint32_t b) {
	uint32_t t[4] = {p, u, e, b}; if( !vp_case(t, 4) ) return; vp_note("\"%s\" then byte 0x%02x in place %u then \"%s\"", LP[p], b, u, LE[e]);
	static char const *const U[] = {"?", "??", "\\?", "a?", "?a", "\n?", "\\\\?", "?\n", "\xc3?", "?\xa9", "a?a", "\r?"}; char x[64], *q = stpcpy(x, LP[p]); for( char const *c = U[u]; *c; c++ ) *q++ = *c=='?'? (char)b : *c; q = stpcpy(q, LE[e]); N = (size_t)(q-x); all(x, 127); vp_case_done();
}
static void bytes(void) { uint64_t x = 0; for( uint32_t b=1; b < 256; b++ ) for( uint32_t u=0; u < 12; u++ ) for( uint32_t p=0; p < sizeof LP/sizeof *LP; p++ ) for( uint32_t e=0; e < sizeof LE/sizeof *LE; e++ ) if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard && (vp_tier || (b + u + p + e) % 2==0) ) brun(p, u, e, b); }
/* far: constructs beyond 16-bit counts, each matching kind with the scanners it belongs to */
static struct { char const *p, *u, *e; int what; } const FAR[] = {
	{"\"", "a", "\"", STR}, {"'", "\\n", "'x", STR}, {"`", "\\", "`", STR}, {"\"", "\\\"", "", STR}, {"\"", "\\x41 ", "\"", STR}, {"\"", "\xc3\xa9", "\"", STR}, {"", "0", "1", ESC}, {"", "0", "7FFFFFFF", ESC}, {"", "1", "", ESC}, {"\"\\x", "0", "41\"", STR},
	{"//", "a", "\n z", COM}, {"//", "a", "", COM}, {"#", "\\\n", "x\ny", COM}, {"/*", "a", "*/ z", COM}, {"/*", "\n", "*/", COM}, {"/*", "*", "/", COM}, {"/*", "* /", "*/a", COM}, {"/*", " \n", "", COM}, {"//", "\\", "\n\n", COM}, {"/*\n", "a", "\n*/", COM}, {"/*", "/", "\na*/", COM},
	{"`", "a", "`", MQ}, {"``", "\n", "``x", MQ}, {"", "\\`", "`", MQ}, {"'`'", "'", "'`'", MQ}, {"``", "a\n", "", MQ}, {"", "\\", "``", MQ},
	{"", "a", "-", WORD}, {"_", "9", "", WORD}, {"a", "Z9", " ", WORD}, {"", " ", "a", WORD}, {"", "\n", "a", WORD}, {"", "\t\n", "", WORD}, {"", "\xc3", "9", WORD}, {"9", "9", "\n", WORD},
	{"", "a", " ", UNI}, {"", "\xc3\xa9", "9", UNI}, {"", "\xe6\x97\xa5", "", UNI}, {"a", "\xf0\x9f\x98\x80", "9", UNI}, {"", "\xc3\xa9", "\xc3", UNI},
	{"", "\r", "", NL}, {"", "\r\n", "x", NL}, {"a", "\n", "\r", NL}, {"x", "a\r", "\r\n", NL}, {"\r", "a", "\r\n", NL}, {"", "\n\r", "", NL} };
enum { NFAR = sizeof FAR / sizeof *FAR };
static void frun(uint32_t k, uint32_t n) {
	uint32_t t[2] = {k, n}; if( !vp_case(t, 2) ) return; vp_note("\"%s\" then %u bytes of \"%s\" then \"%s\"", FAR[k].p, n, FAR[k].u, FAR[k].e);
	size_t ul = strlen(FAR[k].u), m = n / ul; char *x = __real_malloc(m*ul + 40), *q = stpcpy(x, FAR[k].p); for( size_t i=0; i < m; i++ ) { memcpy(q, FAR[k].u, ul); q += ul; } q = stpcpy(q, FAR[k].e); N = (size_t)(q-x); all(x, FAR[k].what); __real_free(x); vp_case_done();
}
static void far_(void) {
	static uint32_t const L[] = {30000, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 65540, 70001, 98305, 131071, 131072, 131073, 139900}; uint64_t x = 0;
	for( uint32_t i=0; i < sizeof L/sizeof *L; i++ ) for( uint32_t k=0; k < NFAR; k++ ) if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard && (vp_tier || L[i]==70001 || i==5+k%5) ) frun(k, L[i]);
}
/* every code point through the numeric escapes of a string, in upper and lower case; 256 to a case */
static void urun(uint32_t hi) {
	uint32_t t[1] = {hi}; if( !vp_case(t, 1) ) return; vp_note("code points %x00..%xff through the escapes \\x \\u \\U", hi, hi);
	for( uint32_t lo=0; lo < 256; lo++ ) { uint32_t v = hi<<8 | lo; static char const *const F[] = {"'\\U%08X'", "\"\\U%08xz\"", "'\\x%X'", "'\\X%xg'", "'\\u%04X'", "'a\\u%04x0'"}; for( int f=0; f < (v < 0x10000? 6 : 4); f++ ) { char x[32]; N = (size_t)sprintf(x, F[f], v); all(x, STR); } }
	vp_case_done();
}
static void uni(void) { for( uint32_t h=0; h <= 0x1101; h++ ) if( h % (uint32_t)vp_nshards==(uint32_t)vp_shard ) urun(h); }
static void classes(void) { for( int32_t c=-300; c <= 0x110400; c++ ) { bool d = c >= '0' && c <= '9'; CHECK(is_alphabetic(c)==alpha(c) && is_possible_id(c)==(alpha(c) || d) && is_whitespace(c)==(c > 0 && c < 256 && ws(c)), "classifier wrong for %d", c); CHECK(is_valid_unicode(c)==(c >= 0 && uvalid((uint32_t)c)), "is_valid_unicode(%d)", c); } }
void vp_explore(int c) { if( c==NC ) { ladder(); return; } if( c > NC ) { if( c==NC+1 ) bytes(); else if( c==NC+2 ) far_(); else uni(); return; } cfg = c; if( c==0 && vp_shard==0 ) { uint32_t z = 999; if( vp_case(&z, 1) ) { classes(); vp_case_done(); } } vp_words((uint32_t)strlen(C[c].abc), vp_tier? C[c].t : C[c].q, text); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c==NC+2 ) { if( l==2 ) frun(t[0], t[1]); return; } if( c==NC+3 ) { if( l==1 ) urun(t[0]); return; } if( c > NC ) { if( l==4 ) brun(t[0], t[1], t[2], t[3]); return; } if( c >= NC ) { if( l==4 ) lrun(t[0], t[1], t[2], t[3]); return; } cfg = c; if( vp_case(t, l) ) { if( l==1 && t[0]==999 ) classes(); else text(t, (int)l); vp_case_done(); } }
