/* C28: texts of numbers converted to their values, against plain positional arithmetic in 128 bits. */
#define _GNU_SOURCE
#include "vp.h"
#include <ctype.h>
#include <math.h>
#include "lex/lex.h"
#include "lexref.h"
char const *const vp_property = "C28";
struct conf { char const *name, *abc; int q, t; };
static struct conf const C[] = {
	{"binary",      "01b2B-0_ ", 6, 7},
	{"octal",       "0178oO+-9'", 6, 7},
	{"hex",         "01xXfFg9A-u", 6, 7},
	{"mixed",       "0127boxaf-+ \tuL'_.e\x80", 4, 5},
	{"floats",      "015.e-p+xfF", 6, 7},
	{"float-tail",  "9.0e+-2", 7, 8},
};
enum { NC = sizeof C / sizeof *C, VALUES = NC, DIGITS, FLONG, BASES, NUMERALS, LADDER, MANY, NCFG };
static int cfg;
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", c < NC? C[c].name : (char const *[]){"values-around-powers","many-digits","long-floats","every-base","numerals","long-custom-numbers","many-numerals"}[c-NC]); }
int vp_config_shards(int c) { return c < NC? 4 : c==BASES? 4 : 1; }
typedef __int128 big;
/* digits of the base from i: the value, held at LIM, and the position behind them */
static big const LIM = (big)1 << 80;
static int dval(int c) { return c >= '0' && c <= '9'? c-'0' : c >= 'a' && c <= 'z'? c-'a'+10 : c >= 'A' && c <= 'Z'? c-'A'+10 : 99; }
static big scan(char const *s, size_t *i, int base) { big v = 0; while( dval((uint8_t)s[*i]) < base ) { if( v < LIM ) v = v*base + dval((uint8_t)s[*i]); ++*i; } return v; }
/* false: nothing is said about this text */
static bool refint(char const *s, bool go, big *v, size_t *end, bool *neg) {
	*neg = false;
	if( s[0]=='0' && ((s[1]|32)=='b' || (go && (s[1]|32)=='o')) ) { int const base = (s[1]|32)=='b'? 2 : 8; *end = 2; *v = scan(s, end, base); return *end > 2; }
	size_t i = 0; while( isspace((uint8_t)s[i]) ) i++;
	if( s[i]=='-' || s[i]=='+' ) *neg = s[i++]=='-';
	if( s[i]=='0' && (s[i+1]|32)=='b' ) return false;
	if( go && s[i]=='0' && (s[i+1]|32)=='o' ) return false;
	if( s[i]=='0' && (s[i+1]|32)=='x' && dval((uint8_t)s[i+2]) < 16 ) { i += 2; *v = scan(s, &i, 16); }
	else if( s[i]=='0' ) *v = scan(s, &i, 8);
	else { size_t const b = i; *v = scan(s, &i, 10); if( i==b ) i = 0; }
	*end = i; if( *neg ) *v = -*v; return true;
}
static void ints(char const *s0, size_t n) {
	char *s = __real_malloc(n+1); memcpy(s, s0, n+1); struct HarbolString str = {s, n};
	for( int go=0; go < 2; go++ ) {
		big v = 0; size_t e = 0; bool neg = false; bool const def = refint(s0, go, &v, &e, &neg);
		char *p = NULL; intmax_t const i = go? lex_go_string_to_int(&str, &p) : lex_c_string_to_int(&str, &p);
		char *q = NULL; uintmax_t const u = go? lex_go_string_to_uint(&str, &q) : lex_c_string_to_uint(&str, &q);
		CHECK(p >= s && p <= s+n && q >= s && q <= s+n, "\"%.60s\": end position outside of the text", s0);
		if( def ) {
			big const w = v > INTMAX_MAX? INTMAX_MAX : v < INTMAX_MIN? INTMAX_MIN : v, x = v > (big)UINTMAX_MAX? (big)UINTMAX_MAX : v;
			CHECK(i==(intmax_t)w, "\"%.60s\" converted to %jd, should be %jd (%s)", s0, i, (intmax_t)w, go? "Go" : "C"); CHECK(p==s+e, "\"%.60s\": conversion to int used %td characters, not %zu (%s)", s0, p-s, e, go? "Go" : "C");
			if( !neg ) CHECK(u==(uintmax_t)x, "\"%.60s\" converted to %ju, should be %ju (%s)", s0, u, (uintmax_t)x, go? "Go" : "C"); CHECK(q==s+e, "\"%.60s\": conversion to uint used %td characters, not %zu (%s)", s0, q-s, e, go? "Go" : "C");
		}
		intmax_t const i2 = go? lex_go_string_to_int(&str, NULL) : lex_c_string_to_int(&str, NULL); uintmax_t const u2 = go? lex_go_string_to_uint(&str, NULL) : lex_c_string_to_uint(&str, NULL);
		CHECK(i2==i && u2==u, "\"%.60s\": another value without an end position", s0); vp_outcome(vp_hash(&i, sizeof i, e)); vp_add_transitions(4);
	}
	CHECK(str.cstr==s && str.len==n && !memcmp(s, s0, n+1), "the text was modified"); __real_free(s);
}
/* value of a short literal, exactly rounded: mantissa and power of ten (or two) in 113 bits */
static bool quadval(char const *s, long double *out) {
	__float128 m = 0; int nd = 0, e = 0; size_t i = 0; bool const hx = s[0]=='0' && (s[1]|32)=='x'; int const base = hx? 16 : 10; bool dot = false; if( hx ) i = 2;
	for( ;; i++ ) { if( s[i]=='.' && !dot ) { dot = true; continue; } int const d = dval((uint8_t)s[i]); if( d >= base || (!hx && (s[i]|32)=='e') ) break; m = m*base + d; if( m > 0 ) nd++; if( dot ) e -= hx? 4 : 1; }
	if( (s[i]|32)==(hx? 'p' : 'e') ) { size_t j = i+1; bool neg = false; if( s[j]=='+' || s[j]=='-' ) neg = s[j++]=='-'; int x = 0; while( dval((uint8_t)s[j]) < 10 ) { if( x < 99999 ) x = x*10 + dval((uint8_t)s[j]); j++; } e += neg? -x : x; }
	if( nd > (hx? 14 : 12) || e > 40 || e < -40 ) return false;
	__float128 p = 1; for( int k=0; k < (e < 0? -e : e); k++ ) p *= hx? 2 : 10;
	*out = (long double)(e < 0? m/p : m*p); return true;
}
static uint64_t nquad;
static void floats(char const *s0, size_t n) {
	size_t rn = 0; bool flt = false, ok = false; for( int f=0; f < NF && !ok; f++ ) { bool x = false; if( ref(f, s0, &rn, &x) && rn==n && x ) ok = flt = true; }
	if( !ok && n && s0[0] > '0' && s0[0] <= '9' ) { size_t i = 0; while( dval((uint8_t)s0[i]) < 10 ) i++; ok = i==n; }
	char *s = __real_malloc(n+1); memcpy(s, s0, n+1); struct HarbolString str = {s, n}; long double const v = lex_string_to_float(&str);
	if( ok && !strpbrk(s0, "'_") ) { long double w = strtold(s0, NULL), q; CHECK(v==w, "\"%.60s\" converted to %.25Lg, should be %.25Lg", s0, v, w); if( quadval(s0, &q) ) { nquad++; CHECK(fabsl(v - q) <= fabsl(q) * 1.1e-19L, "\"%.60s\" converted to %.25Lg, should be %.25Lg", s0, v, q); } }
	CHECK(str.cstr==s && str.len==n && !memcmp(s, s0, n+1), "the text was modified"); __real_free(s); vp_outcome(vp_hash(&v, 10, 7)); vp_add_transitions(1);
}
static void word(uint32_t const *w, int len) { char s[16]; for( int i=0; i < len; i++ ) s[i] = C[cfg].abc[w[i]]; s[len] = 0; ints(s, (size_t)len); floats(s, (size_t)len); if( vp_want_sample ) vp_sample("\"%s\"", s); }
/* ---- v printed in a base ---- */
static size_t print(char *o, unsigned __int128 v, int base, bool up) { char t[140]; size_t n = 0; do { t[n++] = (up? "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" : "0123456789abcdefghijklmnopqrstuvwxyz")[v % (unsigned)base]; v /= (unsigned)base; } while( v ); for( size_t i=0; i < n; i++ ) o[i] = t[n-1-i]; o[n] = 0; return n; }
static void value(uint64_t k, int d, int how) {
	uint32_t t[3] = {(uint32_t)k, (uint32_t)(d+100), (uint32_t)how}; if( !vp_case(t, 3) ) return;
	unsigned __int128 v = 0; if( k < 70 ) v = (unsigned __int128)1 << k; else { v = 1; int const b = (int[]){10, 8, 16, 3}[(k-70) / 32]; for( uint64_t i=0; i < (k-70) % 32; i++ ) { if( v >> 90 ) break; v *= (unsigned)b; } }
	if( d < 0 && v < (unsigned)-d ) v = 0; else v += (unsigned __int128)(__int128)d;
	char const *const pre[] = {"", "-", "+", "0x", "0X", "-0x", "0", "-0", "0b", "0B", "0o", "0O", " ", "\t-", "000", "0x000", "0b0"}; int const base[] = {10,10,10,16,16,16,8,8,2,2,8,8,10,10,8,16,2}; char const *const tail[] = {"", "u", "ULL", "'", " ", "_", "g", ".5", "9"};
	char s[300]; size_t n = strlen(strcpy(s, pre[how % 17])); n += print(s+n, v, base[how % 17], how & 1); if( !(how/17==8 && base[how % 17] > 8) ) strcpy(s+n, tail[how / 17]); ints(s, strlen(s)); floats(s, strlen(s)); vp_case_done(); if( vp_want_sample ) vp_sample("\"%s\"", s);
}
static uint32_t const LFAR[] = {63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 20000, 32768, 65535, 65536, 65537, 70000};
static void many(uint32_t n, uint32_t how, uint32_t tl) {
	uint32_t t[3] = {n, how, tl}; if( !vp_case(t, 3) ) return; vp_note("%u digits of kind %u, tail %u", n, how, tl);
	char const *const pre[] = {"", "-", "0x", "0b", "0o", "0", "-0x", "1.", "0.", ".", "0x1.", "1e", "1e-", "1e+0", "0x1p", "0x1p-0", "-0"}; char const *const tail[] = {"", "1", "17", "u", ".5", "f", "e5", "777", "p3", "9223372036854775807"};
	char *s = __real_malloc(n + 60); size_t m = strlen(strcpy(s, pre[how / 3])); for( uint32_t i=0; i < n; i++ ) s[m++] = "071"[how % 3]; strcpy(s+m, tail[tl]); ints(s, strlen(s)); floats(s, strlen(s)); __real_free(s); vp_case_done();
}
/* ---- custom bases ---- */
static int32_t rnum[1000]; static char cnum[1000];
static void numerals(int kind, int count) { /* 0: 0-9A-Za-z..., 1: reversed, 2: wide runes for runes, high bytes for texts */
	int k = 0; for( int i=0; i < count; i++ ) { int c; if( kind==2 ) c = 0x80 + i % 127; else { do k++; while( k=='-' || (k & 0xff)==0 ); c = k; } cnum[i] = (char)c; rnum[i] = kind==2? 0x1F600 + i : c; }
	if( kind==1 ) for( int i=0; i < count/2; i++ ) { char c = cnum[i]; cnum[i] = cnum[count-1-i]; cnum[count-1-i] = c; int32_t r = rnum[i]; rnum[i] = rnum[count-1-i]; rnum[count-1-i] = r; }
	cnum[count] = 0; rnum[count] = 0;
}
/* dg: digit values; -1 minus, -2 an unknown character, values >= base are numerals beyond the base */
static void custom(int const *dg, size_t n, int base, int kind, int count) {
	numerals(kind, count); big v = 0; bool ok = true, fits = true, neg = false; size_t nd = 0;
	char *c = __real_malloc(n+1); int32_t *r = __real_malloc((n+1) * 4); char *cn = __real_malloc((size_t)count+1); int32_t *rn = __real_malloc(((size_t)count+1) * 4); memcpy(cn, cnum, (size_t)count+1); memcpy(rn, rnum, ((size_t)count+1) * 4);
	for( size_t i=0; i < n; i++ ) { c[i] = dg[i]==-1? '-' : dg[i]==-2? '\x7f' : cnum[dg[i]]; r[i] = dg[i]==-1? '-' : dg[i]==-2? (int32_t[]){0x10FFFF, 0x10000, rnum[0] + 0x10000, 0x100000 + rnum[base-1], rnum[0] + 0x20000}[(i + n) % 5] : rnum[dg[i]]; if( i==0 && dg[i]==-1 ) neg = true; else if( dg[i] < 0 || dg[i] >= base ) ok = false; else if( v < LIM ) { v = v*base + dg[i]; nd++; } } c[n] = 0; r[n] = 0;
	if( neg ) v = -v; if( v > INTMAX_MAX || v < -(big)INTMAX_MAX ) fits = false; bool const ufits = v >= 0 && v <= (big)UINTMAX_MAX, uok = ok && !neg;
	if( (kind==2 && count > 126) || count > 250 ) count = 0; /* bytes repeat */
	for( int b=0; b < 2; b++ ) {
		bool res;
		if( fits || !ok ) { res = b; intmax_t i = convert_runes_to_base_int(r, (uint_fast8_t)base, rn, &res); if( n > (size_t)neg ) CHECK(res==ok, "runes to int in base %d: %s", base, res? "accepted" : "refused"); if( ok ) CHECK(i==(intmax_t)v, "runes to int in base %d: %jd, should be %jd", base, i, (intmax_t)v);
			if( count ) { res = b; i = convert_cstr_to_base_int(c, (uint_fast8_t)base, cn, &res); if( n > (size_t)neg ) CHECK(res==ok, "\"%.60s\" to int in base %d: %s", c, base, res? "accepted" : "refused"); if( ok ) CHECK(i==(intmax_t)v, "\"%.60s\" to int in base %d: %jd, should be %jd", c, base, i, (intmax_t)v); } }
		if( ufits || !uok ) { res = b; uintmax_t u = convert_runes_to_base_uint(r, (uint_fast8_t)base, rn, &res); if( n ) CHECK(res==uok, "runes to uint in base %d: %s", base, res? "accepted" : "refused"); if( uok ) CHECK(u==(uintmax_t)v, "runes to uint in base %d: %ju, should be %ju", base, u, (uintmax_t)v);
			if( count ) { res = b; u = convert_cstr_to_base_uint(c, (uint_fast8_t)base, cn, &res); if( n ) CHECK(res==uok, "\"%.60s\" to uint in base %d: %s", c, base, res? "accepted" : "refused"); if( uok ) CHECK(u==(uintmax_t)v, "\"%.60s\" to uint in base %d: %ju, should be %ju", c, base, u, (uintmax_t)v); } }
	}
	vp_outcome(vp_hash(&v, sizeof v, (uint64_t)base)); vp_add_transitions(8); __real_free(c); __real_free(r); __real_free(cn); __real_free(rn); (void)nd;
}
static void based(int base, uint32_t k, int d, int neg, int kind, int extra) { /* a value around a power of the base */
	uint32_t t[6] = {(uint32_t)base, k, (uint32_t)(d+1000), (uint32_t)neg, (uint32_t)kind, (uint32_t)extra}; if( !vp_case(t, 6) ) return;
	big v = 0; if( k < 64 ) { v = 1; for( uint32_t i=0; i < k && v < ((big)1 << 64); i++ ) v *= base; } else if( k==64 ) v = INTMAX_MAX; else v = (big)UINTMAX_MAX; v += d; if( v < 0 ) v = 0;
	int dg[200], tmp[140]; size_t n = 0, m = 0; do { tmp[m++] = (int)(v % base); v /= base; } while( v ); if( neg ) dg[n++] = -1; if( extra==1 ) dg[n++] = 0; while( m ) dg[n++] = tmp[--m];
	int const count = base + (extra==2? 3 : 0) > 255? 255 : base + (extra==2? 3 : 0); vp_note("base %d, power %u%+d, sign %d", base, k, d, neg); custom(dg, n, base, kind, count); vp_case_done();
}
static int nb, ncount, nkind;
static void numword(uint32_t const *w, int len) { int dg[16]; for( int i=0; i < len; i++ ) dg[i] = (int)w[i] < ncount? (int)w[i] : (int)w[i]==ncount? -1 : -2; custom(dg, (size_t)len, nb, nkind, ncount); }
static void numset(int base, int extra, int kind, int len) { nb = base; ncount = base + extra; nkind = kind; int const k = ncount+2; uint64_t tot = 1; for( int l=0; l <= len; l++, tot *= (uint64_t)k ) for( uint64_t x=0; x < tot; x++ ) { uint32_t w[16], t[20]; uint64_t y = x; for( int i=0; i < l; i++ ) { w[i] = (uint32_t)(y % (uint64_t)k); y /= (uint64_t)k; } t[0] = (uint32_t)base; t[1] = (uint32_t)extra; t[2] = (uint32_t)kind; memcpy(t+3, w, (size_t)l*4); if( !vp_case(t, (size_t)l+3) ) continue; numword(w, l); vp_case_done(); } }
static void longcustom(uint32_t base, uint32_t zeros, uint32_t bad, uint32_t neg) { /* many leading zeros, then a value; bad: place of an unknown character */
	uint32_t t[4] = {base, zeros, bad, neg}; if( !vp_case(t, 4) ) return; vp_note("base %u, %u zeros, bad %u, sign %u", base, zeros, bad, neg); int *dg = __real_malloc((zeros + 20) * sizeof *dg); size_t n = 0; if( neg ) dg[n++] = -1; for( uint32_t i=0; i < zeros; i++ ) dg[n++] = 0; for( int i=0; i < 7; i++ ) dg[n++] = (int)((uint32_t)i * 7 + 1) % (int)base;
	if( bad < n ) dg[bad] = bad & 1? -2 : -1; custom(dg, n, (int)base, 0, (int)base); __real_free(dg); vp_case_done();
}
/* more numerals than the base uses, up to 700: each of them alone, before and behind others */
static void beyond(uint32_t base, uint32_t count, uint32_t idx, uint32_t kind) {
	uint32_t t[4] = {base, count, idx, kind}; if( !vp_case(t, 4) ) return; vp_note("base %u, numeral %u of %u, kind %u", base, idx, count, kind); int const i = (int)idx;
	int const w[8][4] = {{i}, {1, i}, {i, 1}, {0, 0, i}, {-1, i}, {-1, 1, i}, {i, -1}, {1, i, 0, 1}}, n[8] = {1, 2, 2, 3, 2, 3, 2, 4}; for( int k=0; k < 8; k++ ) custom(w[k], (size_t)n[k], (int)base, (int)kind, (int)count); vp_case_done();
}
static void unassigned(void) { uint32_t t[1] = {0}; if( !vp_case(t, 1) ) return; struct HarbolString s = {0}; char *e; CHECK(lex_c_string_to_int(&s, &e)==0 && lex_go_string_to_int(&s, &e)==0 && lex_c_string_to_uint(&s, &e)==0 && lex_go_string_to_uint(&s, &e)==0 && lex_string_to_float(&s)==0, "a string without text has a value"); vp_case_done(); }
void vp_explore(int c) {
	cfg = c; uint64_t q = 0;
	if( c < NC ) { vp_words((uint32_t)strlen(C[c].abc), vp_tier? C[c].t : C[c].q, word); return; }
	if( c==VALUES ) { unassigned(); for( uint64_t k=0; k < 70+128; k++ ) for( int d=-20; d <= 20; d++ ) for( int h=0; h < 17*9; h++ ) if( vp_tier || d*d <= 16 || h < 34 ) value(k, d, h); }
	else if( c==DIGITS || c==FLONG ) { uint32_t const dense = vp_tier? 300 : 90; for( uint32_t i=0; i < dense + 27; i++ ) { uint32_t const n = i < dense? i : LFAR[i-dense]; for( uint32_t h=(c==FLONG? 21 : 0); h < (c==FLONG? 48 : 21); h++ ) for( uint32_t tl=0; tl < 10; tl++ ) many(n, h, tl); if( c==DIGITS ) for( uint32_t h=48; h < 51; h++ ) for( uint32_t tl=0; tl < 10; tl++ ) many(n, h, tl); } }
	else if( c==BASES ) { for( int b=2; b <= 255; b++ ) { if( (int)(q++ % (uint64_t)vp_nshards) != vp_shard ) continue; for( uint32_t k=0; k < 66; k++ ) for( int d=-3; d <= 3; d++ ) for( int ng=0; ng < 2; ng++ ) for( int x=0; x < 3; x++ ) for( int kd=0; kd < 3; kd++ ) { if( !vp_tier && (d*d > 4) && kd ) continue; if( kd < 2 && b > 240 ) continue; based(b, k, d, ng, kd, x); } } }
	else if( c==NUMERALS ) for( int kd=0; kd < 3; kd++ ) { numset(2, 0, kd, vp_tier? 8 : 7); numset(2, 2, kd, vp_tier? 7 : 6); numset(3, 0, kd, 6); numset(3, 1, kd, 6); numset(5, 2, kd, 5); numset(10, 0, kd, 4); numset(10, 6, kd, 4); numset(16, 0, kd, 3); numset(16, 4, kd, 3); numset(1, 2, kd, 6); numset(62, 2, kd, 2); }
	else if( c==MANY ) { static uint32_t const B[] = {2, 3, 10, 16, 36, 64, 127, 128, 200, 254, 255}, M[] = {0, 1, 2, 10, 126, 128, 254, 255, 256, 257, 258, 272, 300, 383, 384, 511, 512, 513, 600, 700}; for( int b=0; b < 11; b++ ) for( int m=0; m < 20; m++ ) for( uint32_t kd=0; kd < 3; kd++ ) if( M[m] > B[b] || m==0 ) { uint32_t const ct = m? M[m] : B[b]; for( uint32_t i=0; i < ct; i++ ) beyond(B[b], ct, i, kd); } }
	else for( uint32_t b=2; b < 64; b++ ) for( uint32_t i=0; i < 60 + 27; i++ ) { uint32_t const z = i < 60? i : LFAR[i-60]; if( b > 10 && b != 16 && b != 62 && z > 300 ) continue; for( uint32_t ng=0; ng < 2; ng++ ) { longcustom(b, z, UINT32_MAX, ng); longcustom(b, z, z/2, ng); longcustom(b, z, z, ng); longcustom(b, z, z+5, ng); longcustom(b, z, 1, ng); } }
}
void vp_replay(int c, uint32_t const *t, size_t n) {
	cfg = c;
	if( c < NC ) { if( vp_case(t, n) ) { word(t, (int)n); vp_case_done(); } }
	else if( c==VALUES ) { if( n==1 ) unassigned(); else value(t[0], (int)t[1]-100, (int)t[2]); } else if( c==DIGITS || c==FLONG ) many(t[0], t[1], t[2]);
	else if( c==BASES ) based((int)t[0], t[1], (int)t[2]-1000, (int)t[3], (int)t[4], (int)t[5]); else if( c==NUMERALS ) { nb = (int)t[0]; ncount = nb + (int)t[1]; nkind = (int)t[2]; if( vp_case(t, n) ) { numword(t+3, (int)n-3); vp_case_done(); } } else if( c==MANY ) beyond(t[0], t[1], t[2], t[3]); else longcustom(t[0], t[1], t[2], t[3]);
}
