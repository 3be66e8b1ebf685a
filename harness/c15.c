/* C15: numeric literal lexing. All short texts over alphabets of character classes against a reference grammar. */
#define _GNU_SOURCE
#include "vp.h"
#include <ctype.h>
#include "lex/lex.h"
#include "lexref.h"
char const *const vp_property = "C15";
struct conf { char const *name, *pre, *abc; int q, t; };
static struct conf const C[] = {
	{"mixed",     "",   "018aefxbopulUXPE.-+'_ \x80", 4, 5},
	{"decimal",   "",   "05eflu.-'_", 6, 7},
	{"decimal-exponent", "1", "2eE.+-fFl'_ ", 5, 7},
	{"hex",       "0x", "0aefp.-ul'_g", 5, 6},
	{"hex-upper", "0X", "9AFP.+UL'_", 5, 6},
	{"hex-exponent", "0x1p", "03+-faul.p'_", 5, 6},
	{"binary",    "0b", "012ulL'_.-", 5, 7},
	{"octal",     "0",  "0178ulU'_.e-", 5, 6},
	{"go-octal",  "0o", "078_'u.-", 6, 7},
	{"suffixes",  "7",  "uUlL.f' ", 7, 8},
	{"go-octal-upper", "0O", "078_'u.-", 5, 6},
	{"binary-upper", "0B", "012ulL'_.-", 4, 6},
	{"upper",     "",   "017AFXBOULPE.-_'", 4, 5},
};
enum { NC = sizeof C / sizeof *C };
int vp_nconfigs(void) { return NC + 2; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", c > NC? "odd character at each place" : c==NC? "ladder" : C[c].name); }
int vp_config_shards(int c) { return c >= NC? 8 : 4; }
static int cfg;

static enum HarbolLexErrType call(int f, char const *s, char const **e, struct HarbolString *b, bool *flt) {
	switch( f ) {
	case CHEX: return lex_c_style_hex(s, e, b, flt); case GHEX: return lex_go_style_hex(s, e, b, flt); case COCT: return lex_c_style_octal(s, e, b, flt); case GOCT: return lex_go_style_octal(s, e, b);
	case CBIN: return lex_c_style_binary(s, e, b); case GBIN: return lex_go_style_binary(s, e, b); case CDEC: return lex_c_style_decimal(s, e, b, flt); case GDEC: return lex_go_style_decimal(s, e, b, flt);
	case CNUM: return lex_c_style_number(s, e, b, flt); default: return lex_go_style_number(s, e, b, flt);
	}
}
static void lexnum(char const *s0, size_t n) {
	char *s = __real_malloc(n+1); memcpy(s, s0, n+1);
	for( int f=0; f < NF; f++ ) {
		size_t rn; bool rf, ok = ref(f, s0, &rn, &rf);
		char const *e = NULL; bool flt = false; struct HarbolString b = {0};
		enum HarbolLexErrType r = call(f, s, &e, &b, &flt);
		CHECK(e >= s && e <= s+n, "%s(\"%s\"): end position %s", fnm[f], s, e? "outside the text" : "not set");
		CHECK((r==HarbolLexNoErr)==ok, "%s(\"%s\"): %s, but it is %s literal", fnm[f], s, lex_get_err(r), ok? "a" : "no");
		if( ok ) {
			CHECK(e==s+rn, "%s(\"%s\"): ends after %td characters, the literal has %zu", fnm[f], s, e-s, rn);
			CHECK(b.len==rn && !memcmp(b.cstr, s, rn), "%s(\"%s\"): delivered \"%s\"", fnm[f], s, b.cstr? b.cstr : "");
			CHECK(flt==rf, "%s(\"%s\"): is_float is %d", fnm[f], s, flt);
		}
		CHECK(strcmp(lex_get_err(r), "Unknown Lex error.") != 0, "%s(\"%s\"): undefined error code %d", fnm[f], s, r);
		harbol_string_clear(&b); vp_add_transitions(1);
	}
	CHECK(!memcmp(s, s0, n+1), "text was modified");
	__real_free(s);
	if( vp_want_sample ) vp_sample("\"%.60s\"", s0);
}
static void text(uint32_t const *w, int len) {
	char s0[64]; size_t pl = strlen(C[cfg].pre), n = pl + (size_t)len; memcpy(s0, C[cfg].pre, pl); for( int i=0; i < len; i++ ) s0[pl+(size_t)i] = C[cfg].abc[w[i]]; s0[n] = s0[n+1] = 0;
	lexnum(s0, n);
}
/* ---- ladder: literals of any length ---- */
static char const *const LP[] = {"", "1", "0", "0x", "0X1", "0b", "0B1", "0o", "0O1", "1.", "0x1.", "1e", "1e-", "0x1p", "0x.8p+", ".", "1'", "0x'1'", "0_", "0b1_", "08"}, *const LU[] = {"1", "0", "7", "9", "f", "1'", "1_", "01", "e", "'", "u"},
	*const LE[] = {"", "u", "ull", ".", ".5", "e5", "e", "p3", "f", "L", "'", "_", "z", " ", "-", "ullu", "e+12f", "p-7L", ".25e-3l", "8", "\x80"};
static uint32_t const LN[] = {2,3,4,5,6,7,8,9,10,12,15,16,17,18,19,20,21,22,24,31,32,33,40,48,62,63,64,65,66,80,99,100,101,126,127,128,129,130,200,254,255,256,257,258,300,511,512,513,1000,1023,1024,1025,2000,4095,4096,4097,20000,65535,65536,65537};
static void lrun(uint32_t p, uint32_t u, uint32_t e, uint32_t n) {
	uint32_t t[4] = {p, u, e, n}; if( !vp_case(t, 4) ) return; vp_note("\"%s\" then %u times \"%s\" then \"%s\"", LP[p], n, LU[u], LE[e]);
	char *x = __real_malloc(n*2 + 40), *q = stpcpy(x, LP[p]); for( uint32_t i=0; i < n; i++ ) q = stpcpy(q, LU[u]); q = stpcpy(q, LE[e]); q[1] = 0; lexnum(x, (size_t)(q-x)); __real_free(x); vp_case_done();
}
static void ladder(void) {
	uint64_t x = 0; for( uint32_t k=0; k < sizeof LN/sizeof *LN; k++ ) for( uint32_t p=0; p < sizeof LP/sizeof *LP; p++ ) for( uint32_t u=0; u < sizeof LU/sizeof *LU; u++ ) for( uint32_t e=0; e < sizeof LE/sizeof *LE; e++ ) {
		if( LN[k] > 300 && (p*7 + u*3 + e + k) % (LN[k] > 10000? 301u : LN[k] > 1100? 41u : 7u) && !(vp_tier && LN[k] < 3000) ) continue;
		if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) lrun(p, u, e, LN[k]); }
}
/* places: literals of every length with one odd character at each place */
static char const *const PP[] = {"", "0x", "0b", "0", "0o", "1.", "0x1p", "1e"}; static char const PD[] = "5a16" "7305", PC[] = "'_.e8pg-";
static void prun(uint32_t b, uint32_t n, uint32_t c) {
	uint32_t t[4] = {b, n, c, 1}; if( !vp_case(t, 4) ) return; vp_note("\"%s\" then %u digits with '%c' at each place", PP[b], n, PC[c]);
	char *x = __real_malloc(n + 40); size_t pl = strlen(PP[b]); for( uint32_t i=0; i <= n; i++ ) { memcpy(x, PP[b], pl); memset(x+pl, b==2? '1' : PD[b], n); if( i < n ) x[pl+i] = PC[c]; x[pl+n] = x[pl+n+1] = 0; lexnum(x, pl+n); }
	__real_free(x); vp_case_done();
}
static void places(void) { uint64_t x = 0; for( uint32_t n=1; n <= (vp_tier? 300u : 270u); n++ ) for( uint32_t b=0; b < 8; b++ ) for( uint32_t c=0; c < 8; c++ ) if( (n <= 80 || vp_tier || (n + b + c) % 8==0 || (n > 124 && n < 131 && c < 2) || (n > 252 && n < 259 && c < 2)) && x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) prun(b, n, c); }
/* classifiers */
static void classes(void) {
	for( int32_t c=-300; c <= 300; c++ ) {
		CHECK(is_decimal(c)==dec(c) && is_octal(c)==oct(c) && is_hex(c)==hex(c) && is_binary(c)==bin(c), "digit classifier wrong for %d", c);
	}
}
void vp_explore(int c) { if( c >= NC ) { if( c==NC ) ladder(); else places(); return; } cfg = c; if( c==0 && vp_shard==0 ) { uint32_t z = 999; if( vp_case(&z, 1) ) { classes(); vp_case_done(); } } vp_words((uint32_t)strlen(C[c].abc), vp_tier? C[c].t : C[c].q, text); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c >= NC ) { if( l==4 && c > NC ) prun(t[0], t[1], t[2]); else if( l==4 ) lrun(t[0], t[1], t[2], t[3]); return; } cfg = c; if( vp_case(t, l) ) { if( l==1 && t[0]==999 ) classes(); else text(t, (int)l); vp_case_done(); } }
