/* C21: every expression of up to n tokens, every byte string over the grammar's characters, and every literal / name length across the lexeme limit,
   evaluated by the real parser and by an independent evaluator of the documented grammar: same value (relative 1e-15), NaN exactly for the malformed. */
#define _GNU_SOURCE
#include "vp.h"
#include "math/math_parser.h"
#include "mathref.h"
char const *const vp_property = "C21";
void *__real_malloc(size_t);
static char const *const TOK[] = {"1", "2.5", "0", "x", "inc", "sin", "(", ")", "[", "]", "+", "-", "*", "/", "^", " ", "pi", "10", ".5", "nope", "%"};
static char const CH[] = "12.x+-*/^()[] e";
enum { TOKENS, TOKENS2, CHARS, LENGTHS, BYTES, CHAINS, NAMES, FUNCS, NCFG };
static int cfg;
static LD f_inc(LD v) { return v + 1; }
static LD const X = 3.25L; static size_t calls;
/* names of any length: v... is a variable worth its length, g... a function adding its length; w... special values */
static LD const SPECIAL[] = {INFINITY, -INFINITY, -0.0L, 0, 1e-4940L, 1e4930L, 9007199254740993.0L, -7.5L}; enum { NSPECIAL = 8 };
static size_t glen; static LD f_len(LD v) { return v + (LD)glen; }
static int my_ref(char const *n, LD *v, LD (**fn)(LD), void *ctx) { if( !strcmp(n, "x") ) { *v = X; return 1; } if( !strcmp(n, "inc") ) { *fn = f_inc; return 2; } if( *n=='v' ) { *v = (LD)strlen(n); return 1; } if( *n=='j' ) { *v = 5; return 1; } if( *n=='k' ) { *v = 6; return 1; } if( *n=='g' ) { glen = strlen(n); *fn = f_len; return 2; } if( *n=='w' && n[1] >= '0' && n[1] < '8' && !n[2] ) { *v = SPECIAL[n[1]-'0']; return 1; } return rm_default(n, v, fn, ctx); }
static int marker[3];
static void my_vars(char const name[], size_t len, floatmax_t *value, HarbolMathFunc **fn, void *data, size_t dlen, bool *is_func) {
	CHECK(strlen(name)==len, "name '%s' handed over with length %zu", name, len); CHECK(data==(void *)marker && dlen==sizeof marker, "data not handed through"); calls++;
	if( !strcmp(name, "x") ) { *value = X; return; }
	if( !strcmp(name, "inc") ) { *fn = f_inc; *is_func = true; return; }
	if( *name=='v' ) { *value = (LD)len; return; } if( *name=='g' ) { glen = len; *fn = f_len; *is_func = true; if( len & 1 ) *value = 17 + (LD)len; return; } if( *name=='j' ) { *value = 5; *fn = f_inc; return; } if( *name=='k' ) { *value = 6; *is_func = true; return; } if( *name=='w' && name[1] >= '0' && name[1] < '8' && !name[2] ) { *value = SPECIAL[name[1]-'0']; return; }
	harbol_math_default_var_func(name, len, value, fn, data, dlen, is_func);
}
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", ((char const *[]){"every sequence of the tokens of an expression", "longer sequences of the core tokens", "every string of the characters of an expression", "literals and names of every length", "every byte in every place", "long sums, products, powers and repeated nesting", "known names of every length and special values", "every default function of every value, and names near the default ones"})[c]); }
int vp_config_shards(int c) { return c==LENGTHS || c==BYTES? 1 : 8; }
static bool near(LD a, LD b) { if( isnan(a) || isnan(b) ) return isnan(a) && isnan(b); if( a==b ) return true; if( isinf(a) || isinf(b) ) return false; LD m = fabsl(a) > fabsl(b)? fabsl(a) : fabsl(b); return fabsl(a-b) <= 1e-15L*m; }
static void one(char const *text) {
	size_t n = strlen(text); char *s = __real_malloc(n+1); memcpy(s, text, n+1);
	LD e; bool ok = rmath(s, my_ref, NULL, &e); LD v = harbol_math_parse_expr(s, my_vars, marker, sizeof marker);
	if( !ok ) CHECK(isnan(v), "'%s' is malformed but evaluates to %.12Lg", text, v); else CHECK(near(v, e), "'%s' evaluates to %.18Lg, should be %.18Lg", text, v, e);
	ok = rmath(s, rm_default, NULL, &e); v = harbol_math_parse_expr(s, harbol_math_default_var_func, NULL, 0);
	if( !ok ) CHECK(isnan(v), "'%s' is malformed with the default names but evaluates to %.12Lg", text, v); else CHECK(near(v, e), "'%s' evaluates to %.18Lg with the default names, should be %.18Lg", text, v, e);
	ok = rmath(s, NULL, NULL, &e); v = harbol_math_parse_expr(s, NULL, NULL, 0);
	if( !ok ) CHECK(isnan(v), "'%s' is malformed without names but evaluates to %.12Lg", text, v); else CHECK(near(v, e), "'%s' evaluates to %.18Lg without names, should be %.18Lg", text, v, e);
	CHECK(!memcmp(s, text, n+1), "expression was modified"); __real_free(s); vp_add_transitions(3);
	if( vp_want_sample ) vp_sample("'%s' -> %.6Lg", text, e);
}
/* the shapes put around a literal or a name of length n */
static char const *const SHAPE[] = {"%s", "1+%s", "%s+1", "(%s)", "1 %s", "-%s^2", "inc(%s)", "%s "};
static void longone(uint32_t kind, uint32_t n, uint32_t shape) {
	char *w = __real_malloc(n + 20), *t = __real_malloc(n + 40); for( uint32_t i=0; i < n; i++ ) w[i] = kind==0? (char)('1'+i%9) : kind==1? (i==n/2? '.' : '7') : kind==2? (char)('a'+i%26) : kind==3? '0' : kind==5? (i < n-1? ' ' : '7') : i? (char)('0'+i%10) : 'q'; w[n] = 0; snprintf(t, n + 40, SHAPE[shape], w); one(t); __real_free(w); __real_free(t);
	if( kind==2 && n < 64 ) one("x");
}
static void nest(uint32_t k, uint32_t n) {
	static char const *const O[] = {"(", "[", "-", "+", "inc ", "inc(", "(-", "1-(", "2^-"}, *const C[] = {")", "]", "", "", "", ")", ")", ")", ""};
	char *t = __real_malloc((size_t)n*6 + 10), *q = t; for( uint32_t i=0; i < n; i++ ) q = stpcpy(q, O[k]); q = stpcpy(q, k==8? "1" : "1"); for( uint32_t i=0; i < n; i++ ) q = stpcpy(q, C[k]);
	if( n <= 200 ) one(t); else { LD v = harbol_math_parse_expr(t, my_vars, marker, sizeof marker); vp_add_transitions(1); if( k < 4 && !isnan(v) ) CHECK(fabsl(v)==1, "%u times '%s' gives %Lg", n, O[k], v); }
	__real_free(t);
}
static void bytes(uint32_t b, uint32_t shape) {
	static char const *const S[] = {"1\1+2", "\1", "1+\1""2", "1\1", "x\1", "\1x", "\1""1", "(1\1)", "[\1""1]", "inc\1(1)", "inc(1\1)", "inc\1""1", "1\1""1", "x\1x", "1.\1""5", "-\1""1", "2\1^2", "2^\1""2", "1\1\1+ 1", ".\1", "x \1 x"}; if( shape >= sizeof S / sizeof *S ) return;
	char t[32]; size_t i = 0; for( char const *q = S[shape]; *q; q++ ) t[i++] = *q==1? (char)b : *q; t[i] = 0; one(t);
}
/* the same step n times over */
static void chain(uint32_t k, uint32_t n) {
	static char const *const H[] = {"1", "1", "1", "1", "x", "2", "5", "0", "inc 1", "(1)", "(", "1"}, *const R[] = {"+1", "-2", "*1", "/1", "+x", "^1", "-inc 1", "+(1*1)", "*[1]", " + 1 - 1", "1+0*", "*2/2"};
	size_t l = strlen(R[k]); char *t = __real_malloc(n*l + 20), *q = stpcpy(t, H[k]); for( uint32_t i=0; i < n; i++ ) { memcpy(q, R[k], l); q += l; } strcpy(q, k==10? "1)" : ""); one(t); __real_free(t);
}
/* m nests of depth d side by side: none may use up what the next needs */
static void nests(uint32_t k, uint32_t d, uint32_t m) {
	static char const *const O[] = {"(", "[", "- -", "+", "inc(", "(-", "1*("}, *const C[] = {")", "]", "", "", ")", ")", ")"}; char *t = __real_malloc((size_t)m*d*6 + m*4 + 10), *q = t; LD first = 0;
	for( uint32_t j=0; j < m; j++ ) { if( j ) *q++ = '+'; for( uint32_t i=0; i < d; i++ ) q = stpcpy(q, O[k]); q = stpcpy(q, "1"); for( uint32_t i=0; i < d; i++ ) q = stpcpy(q, C[k]); if( !j ) { *q = 0; first = harbol_math_parse_expr(t, my_vars, marker, sizeof marker); } }
	LD v = harbol_math_parse_expr(t, my_vars, marker, sizeof marker), want = first * m; if( isnan(first) ) CHECK(isnan(v) && d > 200, "%u levels are refused", d); else CHECK(near(v, want), "%u times %u levels of '%s' give %Lg, should be %Lg", m, d, O[k], v, want);
	if( d <= 40 ) one(t);
	__real_free(t); vp_add_transitions(2);
}
static void nameone(uint32_t k, uint32_t n, uint32_t shape) {
	static char const *const S[] = {"%s", "1+%s", "%s*2", "(%s)", "-%s", "2^%s", "%s 1", "%s(1)", "%s[1]", "%s %s", "%s+%s", "%s(%s)", "%s^2", "inc %s", "1/%s", "%s %s 1", "%s-1", "+%s", "v%s", "%s/%s"}; char w[100], t[400]; if( shape >= sizeof S / sizeof *S ) return;
	if( k==3 ) snprintf(w, sizeof w, "w%u", n); else { for( uint32_t i=0; i < n; i++ ) w[i] = i==0? (k==1? 'g' : k==4? 'j' : k==5? 'k' : 'v') : k==2? (char)('0'+i%10) : i % 3? (char)('a'+i%26) : (char)('A'+i%26); w[n] = 0; } snprintf(t, sizeof t, S[shape], w, w); one(t);
}
/* the default names: each function of each value, functions of functions, and names that are nearly those */
static char const *const DN[] = {"sin","cos","tan","arcsin","arccos","arctan","ln","log","floor","ceil","round","fraction","radians","degrees","e","pi"};
static char const *const DV[] = {"0","0.000001","0.1","0.25","0.4999999999999999","0.5","0.75","0.999999999","1","1.25","1.5","1.75","2","2.5","3","3.5","4.5","5","6.5","7.999","10","30","45","90","99.5","100","180","360","1000","65535.5","65536","1000000","2147483647.5","2147483648","4294967295.5","4294967296","4503599627370497.5","9007199254740993","1152921504606846977","9223372036854775807","9223372036854775808","18446744073709551615","18446744073709551616","100000000000000000000000","e","pi","(pi/2)","(pi/4)","(1/3)"};
enum { NDV = sizeof DV / sizeof *DV };
static void func(uint32_t f, uint32_t g, uint32_t v, uint32_t sh) {
	char t[300]; char const *F = DN[f], *G = DN[g], *V = DV[v];
	switch( sh ) { case 0: snprintf(t, sizeof t, "%s %s", F, V); break; case 1: snprintf(t, sizeof t, "%s(%s)", F, V); break; case 2: snprintf(t, sizeof t, "%s[-%s]", F, V); break; case 3: snprintf(t, sizeof t, "-%s -%s", F, V); break; case 4: snprintf(t, sizeof t, "2*%s(%s)+1", F, V); break;
	case 5: snprintf(t, sizeof t, "%s(1+%s)/3", F, V); break; case 6: snprintf(t, sizeof t, "+%s(-%s)^2", F, V); break; case 7: snprintf(t, sizeof t, "%s(%s %s)", F, G, V); break; case 8: snprintf(t, sizeof t, "%s %s %s", F, G, V); break; case 9: snprintf(t, sizeof t, "%s(-%s)*%s(%s)", F, V, G, V); break; default: return; }
	one(t);
}
static void nearname(uint32_t f, uint32_t how, uint32_t sh) {
	char w[60]; char const *F = DN[f]; size_t n = strlen(F); strcpy(w, F);
	switch( how ) { case 0: w[n-1] = 0; break; case 1: strcpy(w, F+1); break; case 2: strcat(w, "h"); break; case 3: strcat(w, "1"); break; case 4: w[n] = w[n-1]; w[n+1] = 0; break; case 5: w[0] -= 32; break; case 6: for( size_t i=0; i < n; i++ ) w[i] -= 32; break; case 7: strcat(w, F); break; case 8: w[n-1] -= 32; break; case 9: w[n-1]++; break; case 10: w[0]++; break; case 11: snprintf(w, sizeof w, "a%s", F); break; case 12: if( n > 1 ) { w[0] = F[1]; w[1] = F[0]; } break; case 13: w[n-1]--; break;
	case 14: case 15: case 16: case 17: case 18: case 19: case 20: case 21: case 22: case 23: case 24: case 25: case 26: case 27: case 28: case 29: strcat(w, DN[how-14]); break; default: w[how-30 < n? how-30 : 0] = 0; }
	if( !*w ) return; static char const *const S[] = {"%s", "%s 1", "%s(1)", "1+%s", "%s[0.5]+1", "2^%s"}; char t[120]; snprintf(t, sizeof t, S[sh], w); one(t);
}
static void word(uint32_t const *w, int len) {
	char t[200] = {0}; size_t k = 0; for( int i=0; i < len; i++ ) { if( cfg==CHARS ) t[k++] = CH[w[i]]; else { char const *x = TOK[w[i]]; /* words would merge */ if( k && rm_al(t[k-1]) && (rm_al(*x) || rm_dg(*x)) ) t[k++] = ' '; size_t l = strlen(x); memcpy(t+k, x, l); k += l; } } t[k] = 0; one(t);
}
static uint64_t nc;
#define RUN(n, ...) do { if( (int)(nc++ % (uint64_t)vp_nshards)==vp_shard && vp_case(t, n) ) { __VA_ARGS__; vp_case_done(); } } while( 0 )
void vp_explore(int c) {
	cfg = c; nc = 0;
	if( c==BYTES ) { for( uint32_t b=1; b < 256; b++ ) for( uint32_t s=0; s < 21; s++ ) { uint32_t t[2] = {b, s}; RUN(2, bytes(b, s)); } return; }
	if( c==FUNCS ) {
		for( uint32_t f=0; f < 14; f++ ) for( uint32_t v=0; v < NDV; v++ ) for( uint32_t s=0; s < 10; s++ ) for( uint32_t g=0; g < (s < 7? 1u : 14u); g++ ) { uint32_t t[4] = {f, g, v, s}; RUN(4, func(f, g, v, s)); }
		for( uint32_t f=0; f < 16; f++ ) for( uint32_t h=0; h < 38; h++ ) for( uint32_t s=0; s < 6; s++ ) { uint32_t t[3] = {f, h, s}; RUN(3, nearname(f, h, s)); }
		return;
	}
	if( c==NAMES ) { for( uint32_t k=0; k < 6; k++ ) for( uint32_t n=k==3? 0 : 1; n < (k==3? NSPECIAL : k > 3? 6u : 80u); n++ ) for( uint32_t s=0; s < 20; s++ ) { uint32_t t[3] = {k, n, s}; RUN(3, nameone(k, n, s)); } return; }
	if( c==CHAINS ) {
		for( uint32_t k=0; k < 12; k++ ) for( uint32_t n=1; n <= (vp_tier? 200000u : 40000u); n = n < 140? n+1 : n < 3000? n + n/20 : n + n/3 ) { uint32_t t[2] = {k, n}; RUN(2, chain(k, n)); }
		for( uint32_t k=0; k < 7; k++ ) for( uint32_t d=1; d <= 520; d = d < 40? d+1 : d < 480? d+20 : d+1 ) for( uint32_t m=2; m <= (vp_tier? 64u : 24u); m = m < 6? m+1 : m*2 ) { uint32_t t[3] = {k, d, m}; RUN(3, nests(k, d, m)); }
		return;
	}
	if( c==TOKENS ) vp_words(21, vp_tier? 6 : 5, word); else if( c==TOKENS2 ) vp_words(15, vp_tier? 7 : 6, word); else if( c==CHARS ) vp_words(15, vp_tier? 7 : 6, word);
	else for( uint32_t kind=0; kind < 5; kind++ ) for( uint32_t n=1; n < (vp_tier? 300u : 140u); n++ ) for( uint32_t s=0; s < 8; s++ ) { uint32_t t[3] = {kind, n, s}; if( vp_case(t, 3) ) { longone(kind, n, s); vp_case_done(); } }
	if( c==LENGTHS ) for( uint32_t kind=0; kind < 6; kind++ ) for( uint32_t n=200; n <= 300000; n = n < 260? n+1 : n < 65530? n*5/4 : n < 65545? n+1 : n*2 ) for( uint32_t s=0; s < 8; s++ ) { uint32_t t[3] = {kind, n, s}; if( vp_case(t, 3) ) { longone(kind, n, s); vp_case_done(); } }
	if( c==LENGTHS ) for( uint32_t k=0; k < 9; k++ ) for( uint32_t n=1; n <= 2000000; n = n < 200? n+1 : n < 700? n+7 : n*3 ) { uint32_t t[2] = {k, n}; if( vp_case(t, 2) ) { nest(k, n); vp_case_done(); } }
}
void vp_replay(int c, uint32_t const *t, size_t n) { cfg = c; if( vp_case(t, n) ) { if( c==BYTES ) bytes(t[0], t[1]); else if( c==FUNCS ) { if( n==4 ) func(t[0], t[1], t[2], t[3]); else nearname(t[0], t[1], t[2]); } else if( c==NAMES ) nameone(t[0], t[1], t[2]); else if( c==CHAINS ) { if( n==2 ) chain(t[0], t[1]); else nests(t[0], t[1], t[2]); } else if( c==LENGTHS && n==2 ) nest(t[0], t[1]); else if( c==LENGTHS ) longone(t[0], t[1], t[2]); else word(t, (int)n); vp_case_done(); } }
